From 30d60d861801fa566aacd79f10f649d8b62fbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 01/53] fix: do not reuse a state vector cache made from other
 gates

The simulator backends kept the cached state after the gate list changed
(a backend instance shared by two circuits, dagger(copy_backends=True), or
in numba an exception after a measurement) and returned a wrong state.
---
 blueqat/backends/_numba_backend_impl.py | 31 ++++++++++++++++++++-----
 blueqat/backends/numpy_backend.py       | 18 ++++++++++++--
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..3999136 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -368,12 +369,19 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
+
+    def copy(self):
+        copied = copy.copy(self)
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
@@ -383,6 +391,11 @@ class NumbaBackend(Backend):
         if self.cache.dtype != dtype:
             self.__clear_cache()
             return
+        # The cache is only available when it was made from the leading gates of this run.
+        if len(self.cache_gates) > len(gates) or \
+           any(cached is not g for cached, g in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, enable_cache=True, ignore_global=False,
@@ -406,7 +419,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -423,12 +436,18 @@ class NumbaBackend(Backend):
         for _ in range(shots):
             ctx.prepare(self.cache)
             cache_idx = self.cache_idx
-            for gate in gates[cache_idx + 1:]:
-                run_single_gate(gate)
-                if ctx.save_cache:
-                    cache_idx += 1
+            try:
+                for gate in gates[cache_idx + 1:]:
+                    run_single_gate(gate)
+                    if ctx.save_cache:
+                        cache_idx += 1
+            except BaseException:
+                # self.cache may be newer than self.cache_idx.
+                self.__clear_cache()
+                raise
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
+                self.cache_gates = list(gates[:cache_idx + 1])
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
             if ctx.cregs:
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..48849a1 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,12 +69,19 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
+
+    def copy(self):
+        copied = copy.copy(self)
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
@@ -83,6 +91,11 @@ class NumPyBackend(Backend):
         if self.cache.dtype != dtype:
             self.__clear_cache()
             return
+        # The cache is only available when it was made from the leading gates of this run.
+        if len(self.cache_gates) > len(gates) or \
+           any(cached is not g for cached, g in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, ignore_global=False, **_kwargs):
@@ -104,7 +117,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -123,6 +136,7 @@ class NumPyBackend(Backend):
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
                     self.cache_idx += 1
+                    self.cache_gates.append(gate)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From c9a9f551126b15c83e072ac7fe646fd1d358d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 02/53] fix: leave the circuit unchanged when the index of a
 gate is rejected

---
 blueqat/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..211f91d 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,11 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(op)
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From 3bb76f8ce614548c4fe6d2a84b9286955dd7983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 03/53] fix: unregister_backend shall look up the backends, not
 the gates

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 211f91d..08e53fc 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -427,7 +427,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From 639b8d9a9af252432ced4c541c711c61349cf84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 04/53] fix: accept None in Circuit.set_default_backend as
 documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 08e53fc..bcba2eb 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From 4065aeebd186c996fd224dc157ba64424da5b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 05/53] fix: sympy backend applies a gate once per listed
 target, and accepts 0 qubits

---
 blueqat/backends/sympy_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..9d7d782 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -77,10 +77,11 @@ class SympyBackend(Backend):
         gates = []
         for idx in range(n_qubits):
             if idx in targets:
-                gates.append(matrix_of_gate)
+                # The gate is applied as many times as the target appears.
+                gates.append(matrix_of_gate ** targets.count(idx))
             else:
                 gates.append(eye(2))
-        return reduce(TensorProduct, reversed(gates))
+        return reduce(TensorProduct, reversed(gates), eye(1))
 
     def _create_matrix_of_one_qubit_gate_circuit(self, gate, ctx, matrix_of_gate):
         n_qubits = ctx.n_qubits
-- 
2.43.0


From 088b7c76dd7e69fffa699bff6fed64dfec548532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 06/53] fix: reject a negative qubit index which is out of
 range

The sympy backend ignored it silently and the QASM output emitted q[-1].
---
 blueqat/gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..c527f79 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -652,6 +652,8 @@ def slicing_singlevalue(arg, length):
             raise TypeError("indices must be integers or slices, not " + arg.__class__.__name__)
         if i < 0:
             i += length
+            if i < 0:
+                raise IndexError("qubit index out of range")
         yield i
 
 
-- 
2.43.0


From 3297875e083251a98876a82a4f1c2c1ed1b1cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 07/53] fix: make the identity operator I hashable

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..ac1b817 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,6 +243,8 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
+        if self.is_identity:
+            return hash(self.op)
         return hash((self.op, _n(self)))
 
     def __eq__(self, other):
-- 
2.43.0


From d47972b6c20cd03eeec9657e248b6cfdd229fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 08/53] fix: compare a Term with an Expr in the same way as the
 reversed operands

Term == Expr was always False, and Term == 1 raised AttributeError.
---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ac1b817..73cf5b5 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -499,6 +499,10 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From 0749bba17ddd6ec35dac6e28dd5278e15dc9d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 09/53] fix: simplify every zero term to the same term

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 73cf5b5..58db348 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -555,6 +555,8 @@ class Term(_TermTuple):
                 new_coeff = new_coeff.real
             if op != "I":
                 new_ops.append(pauli_from_char(op, n))
+        if not new_coeff:
+            return Term((), new_coeff)
         return Term(tuple(new_ops), new_coeff)
 
     def n_iter(self):
-- 
2.43.0


From fd7e474899ce34749ca4d561a74244467510d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 10/53] fix: allow to divide a Term or Expr by any number, as a
 Pauli operator does

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 58db348..d1159b0 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -452,7 +452,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From e81b362dbf2e9386a1e126bf8730f9abfcde255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 11/53] fix: do not lose terms in Expr addition when the Expr
 has like terms

---
 blueqat/pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index d1159b0..7699839 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -674,7 +674,11 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for ops, coeff in self.terms:
+            if coeff:
+                terms[ops] = terms[ops] + coeff if ops in terms else coeff
+        return terms
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From b3746680f0fde9a98d70da370e72ce32d1757a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 12/53] fix: make the zero matrix from an Expr which is zero

---
 blueqat/pauli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 7699839..7ee992e 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -891,6 +891,9 @@ class Expr(_ExprTuple):
         grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
+        if not expr.terms:
+            m = scipy.sparse.csc_matrix((dim, dim), dtype=complex)
+            return m.toarray() if sparse is None else _sparse_types[sparse](m)
         gr_terms = [list(g) for _, g in groupby(sorted(expr.terms, key=grpkey), key=grpkey)]
         n_groups = len(gr_terms)
         n_vals = n_groups * dim
-- 
2.43.0


From 1a5bd6046eb63adb64d3ac7a90f29d6f5ea0f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 13/53] fix: NumPy's scalar on the left of a Pauli operator,
 Term or Expr

np.float64(2) * X[3] returned array([6.]), with the qubit index as a number.
---
 blueqat/pauli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 7ee992e..09c2bca 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # Let NumPy's scalars leave the operation to this class.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -373,6 +376,9 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    # Let NumPy's scalars leave the operation to this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -653,6 +659,9 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    # Let NumPy's scalars leave the operation to this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From 7fb87be82748fd660d8a8e78a2e4cd8cf0e4816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 14/53] fix: sign of the time evolution of a term with Y

The basis change mapped Y to -Z, so that a term with an odd number of Ys
evolved in the direction opposite to the other terms.
---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 09c2bca..69b8f17 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -615,7 +615,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -626,7 +626,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From a221c67e71f3cd0edfb944449499d7a6af3b2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 15/53] fix: sign of the sampled energy of a term with an odd
 number of Ys

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 0a1eb53be2fe1378a3584ab69222656892338957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 16/53] fix: simplify the Hamiltonian before it is measured

If a term has two operators on the same qubit, they were measured as if
they commuted and the bit was counted twice.
---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..8075e2e 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,7 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for meas in self.hamiltonian.to_expr().simplify():
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0


From 8f556b8b03382cb537e8bd95a28ee2331bcf80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/53] fix: energy of a circuit which has other qubits than
 the Hamiltonian's

---
 blueqat/vqe.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 8075e2e..3da0f76 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -61,7 +61,13 @@ class AnsatzBase:
 
     def get_energy_sparse(self, circuit):
         """Get energy using sparse matrix. This method may be changed in the future release."""
-        return sparse_expectation(self.sparse, circuit.run())
+        dim = self.sparse.shape[0]
+        vec = circuit.run()
+        if vec.size < dim:
+            # The qubits which are not in the circuit are |0>.
+            vec = np.concatenate([vec, np.zeros(dim - vec.size)])
+        # The qubits which are not in the Hamiltonian are traced out.
+        return sum(sparse_expectation(self.sparse, v) for v in vec.reshape(-1, dim))
 
     def get_objective(self, sampler=None):
         """Get an objective function to be optimized."""
-- 
2.43.0


From 95ce1608225ef34948a31668ee54049539868aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 18/53] fix: measurement sampler read the bits in reversed
 order

It also lost the shots which differ only on the other qubits, and appended
the measurement to the given circuit.
---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 3da0f76..5895674 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -250,13 +250,15 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From f98dc6b0c1903b2e0b9a10abe09bb080672efbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 19/53] fix: qiskit sampler lost the constant term and
 overwrote like outcomes

It also appended the measurement to the given circuit.
---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 5895674..165fb4f 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -317,10 +317,12 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
-        circuit.measure[meas]
+            return {(): 1.0}
+        circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From 391cbf5521c136b239df1bf4e9d956db5fe83a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 20/53] fix: return the import error of qiskit for
 returns='_exception'

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From 2dd523fc166255bd04187f0fa98ed7fbafe536be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 21/53] fix: accept a NumPy array as Opt.qubo

`qubo != []` raises ValueError for an array, so the documented
`a.qubo = wq.sel(3,1)` and `Opt().add(...)` could not be run.
---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..d7d7a69 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From f4fd16d374661c3e797e42f4a540d49ed7015fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 22/53] fix: Opt.add silently discarded a QUBO of another size

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d7d7a69..4df003c 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -475,6 +475,8 @@ class Opt:
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
         elif(len1==0):
             self.qubo = M*np.array(qubo)
+        else:
+            raise ValueError("The size of the QUBO is different from the added QUBOs.")
         return self
 
     def run(self,shots=1,sampler="normal",targetT=0.02,verbose=False):
-- 
2.43.0


From 20a92d544033b6fb75e7e89eea144cbfa901767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 23/53] fix: SA/SQA ignored the lower triangle of the QUBO,
 while QAOA counts it

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 4df003c..6c606bb 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -401,7 +401,7 @@ class Opt:
         self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
         for i in range(nn):
             for j in range(i+1,nn):
-                self.J[i][j] = self.qubo[i][j]/4
+                self.J[i][j] = (self.qubo[i][j]+self.qubo[j][i])/4
 
         self.J = np.triu(self.J)+np.triu(self.J,k=1).T
 
-- 
2.43.0


From c8e12570b779b7a50ff59533de0dd37547b2980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 24/53] fix: qn_to_qubo failed on a plain symbol and dropped or
 overwrote terms

---
 blueqat/wq.py | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 6c606bb..f6070b0 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -160,35 +160,15 @@ def qn_to_qubo(expr):
     to_i = lambda s: int(str(s)[1:])
     max_i = max(map(to_i, expr.free_symbols)) + 1
     qubo = [[0.] * max_i for _ in range(max_i)]
-    for arg in expr.args:
+    for arg in sympy.Add.make_args(sympy.expand(expr)):
         syms = arg.free_symbols
         assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+        if not syms:
+            continue
+        # A bit is 0 or 1, so that its square is itself.
+        coeff, _ = arg.as_independent(*syms, as_Add=False)
+        idx = sorted(map(to_i, syms))
+        qubo[idx[0]][idx[-1]] += float(coeff)
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 6d06245400f04059dfd0b29a31842b67206ad2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 25/53] fix: optm failed when a bit has only a linear term, or
 no term

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f6070b0..ec03e5a 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,8 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        coeff = optm_E.coeff(symbol_list[i])
+        optm_M[i][i] = coeff.as_independent(*coeff.free_symbols, as_Add=True)[0]
 
     return optm_M
 
-- 
2.43.0


From 33379a3123c061c31fffbc78f75e17ab6124e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 26/53] fix: optx and optm shall not define symbols in the
 module's namespace

An expression with a symbol named `np` broke the other functions of wq.
---
 blueqat/wq.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ec03e5a..fee626f 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -36,7 +36,6 @@ def optx(quboh):
 
     optx_E = sympy.expand(quboh)
     symbol_list = list(optx_E.free_symbols)
-    sympy.var(' '.join(map(str,symbol_list)),positive=True)
     for i in range(len(symbol_list)):
         optx_E = optx_E.subs(symbol_list[i]*symbol_list[i],symbol_list[i])
     return optx_E
@@ -48,7 +47,6 @@ def optm(quboh,numM):
         raise ImportError("optm() requires sympy. Please install before call this function.") 
     optm_E = sympy.expand(quboh) 
     symbol_list = ["q"+str(i) for i in range(numM)] 
-    sympy.var(' '.join(symbol_list),positive=True) 
 
     symbol_list_proto = list(optm_E.free_symbols) 
     for i in range(len(symbol_list_proto)): 
-- 
2.43.0


From d0e9bd9be1ccfb39341a6057b53cc7cef832f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 27/53] fix: expand_qubo took the degree of one variable only

"q0+q1^2" lost q1.
---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index fee626f..a541e75 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -437,7 +437,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 785beb776f0efd44070edf64337bf59e89ca0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 28/53] fix: Opt.add(str) failed when a variable number is
 skipped

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index a541e75..f97e972 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -416,7 +416,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
-- 
2.43.0


From c4dde4f776ec373af23620053c78338af11fca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 29/53] fix: wq.net shall not rewrite the given edges

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f97e972..8ba1492 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -239,8 +239,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From 65c1a8809fc7535598b2eaa86569388253c8cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 30/53] fix: sign of the transverse field in the energy
 reported by sqa

The sampler moves with the opposite sign, which is the one of the
Suzuki-Trotter expansion.
---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 8ba1492..bffb7d2 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -180,7 +180,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From b8d82d3de37a9c74cbfe3b90ce360a90280fad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 31/53] fix: wq.mul is the product of two different linear
 forms

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index bffb7d2..77cfdcb 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -217,7 +217,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From 75381063e946162f7ee9c8edff8c3acecd4659b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 32/53] fix: dw() gave the bias to other qubits when the solver
 lacks some nodes

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 77cfdcb..c4c3ab5 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -556,11 +556,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From 9c38e1e0cd8449548d984fd5fd56842093c4197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 33/53] fix: reject an out-of-range index of the identity gate
 as of any other gate

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index c527f79..9f90d95 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -99,7 +99,7 @@ class IGate(OneQubitGate):
     lowername = "i"
 
     def fallback(self, n_qubits):
-        return []
+        return self._make_fallback_for_target_iter(n_qubits, lambda t: [])
 
     def dagger(self):
         return self
-- 
2.43.0


From 2ca64dc901c66058ee864f993ff700eaed34e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 34/53] fix: printed form of an empty circuit and of an empty
 selection can be evaluated

---
 blueqat/circuit.py                 | 2 +-
 blueqat/experimental/operations.py | 2 +-
 blueqat/gate.py                    | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index bcba2eb..7200d53 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -91,7 +91,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Circuit({self.n_qubits})', *(str(op) for op in self.ops)])
 
     def __get_backend(self, backend_name):
         try:
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..e2e9419 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Ops({self.n_qubits})', *(str(op) for op in self.ops)])
 
     def __getattr__(self, name):
         if name in GATE_SET:
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 9f90d95..d225f54 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -55,6 +55,8 @@ class Gate(ABC):
             else:
                 return str(obj.__index__())
 
+        if self.targets == ():
+            return '[()]'
         if isinstance(self.targets, tuple):
             return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
         else:
-- 
2.43.0


From 0359a59f0abb305d2fcb61c735e313251c8c4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 35/53] fix: hand the context which the last action returned to
 the post-processing

---
 blueqat/backends/backendbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/backendbase.py b/blueqat/backends/backendbase.py
index f34b01e..9a2652e 100644
--- a/blueqat/backends/backendbase.py
+++ b/blueqat/backends/backendbase.py
@@ -69,7 +69,7 @@ class Backend(ABC):
         Otherwise, the developer can override `run` method if they want to change the flow of run.
         """
         gates, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
-        self._run_gates(gates, n_qubits, ctx)
+        ctx = self._run_gates(gates, n_qubits, ctx)
         return self._postprocess_run(ctx)
 
     def make_cache(self, gates, n_qubits):
-- 
2.43.0


From 68ad15ac1787ce7dfce9a1989656e10f2c24ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 36/53] fix: ignore_global of the symbolic unitary recognizes
 unsimplified zero entries

---
 blueqat/backends/sympy_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 9d7d782..0790649 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -34,6 +34,15 @@ def _angle_simplify(ang):
     return ang
 
 
+def _is_zero(expr):
+    """Whether the expression vanishes, even if it isn't simplified."""
+    if expr == 0:
+        return True
+    # Symbols are replaced by generic values.
+    values = {s: 0.5698402909980532 + 0.1 * i for i, s in enumerate(sorted(expr.free_symbols, key=str))}
+    return abs(complex(sympy.lambdify((), expr.subs(values), 'numpy')())) < 1e-9
+
+
 class _SympyBackendContext:
     def __init__(self, n_qubits, ignore_global):
         self.n_qubits = n_qubits
@@ -166,6 +175,6 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                if not _is_zero(mat[i, i]):
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From 53a72460a11f0d4f34ea85881c35b6d59750b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 37/53] fix: ibmq backend decomposes cu2 and cu3, which Qiskit
 rejects or reads with another phase

---
 blueqat/backends/ibmq_backend.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index 2adbe00..39da269 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -37,7 +37,8 @@ Returns:
 
 import warnings
 from collections import Counter
-from .qasm_parser_backend_generator import generate_backend
+from .qasm_output_backend import QasmOutputBackend
+from .qasm_parser_backend_generator import QasmParsableBackend
 
 
 def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **kwargs):
@@ -86,4 +87,22 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
         counts = Counter({bits[::-1]: val for bits, val in result.get_counts().items()})
         return counts
 
-ibmq_backend = generate_backend(_qasm_runner_qiskit)
+
+class _QiskitQasmOutputBackend(QasmOutputBackend):
+    """OpenQASM output for Qiskit.
+
+    Qiskit doesn't know cu2 and its cu3 has a different relative phase. They are decomposed."""
+    def _get_action(self, gate):
+        if gate.lowername in ("cu2", "cu3"):
+            return None
+        return super()._get_action(gate)
+
+
+class IBMQBackend(QasmParsableBackend):
+    """Backend for Qiskit via OpenQASM"""
+    def __init__(self):
+        super().__init__(_qasm_runner_qiskit)
+        self.to_qasm = _QiskitQasmOutputBackend()
+
+
+ibmq_backend = IBMQBackend
-- 
2.43.0


From 6ed31648f63b99530d426d57eb1b65c30a45b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 38/53] fix: qgate backend translates every pair of a swap
 given by slices

---
 blueqat/backends/qgate_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index bf03525..8e1e3f7 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -136,11 +136,11 @@ class QgateBackend(Backend) :
 
     def convert_multi_qubit_gate(self, gate, typeinfo) :
         glist = list()
-        g = model.MultiQubitGate(typeinfo[0](*gate.params))
-        t0, t1 = gate.targets
-        qregs = (self.qregs[t0], self.qregs[t1])
-        g.set_qreglist(qregs)
-        glist.append(g)
+        for t0, t1 in gate.control_target_iter(self.n_qubits) :
+            g = model.MultiQubitGate(typeinfo[0](*gate.params))
+            qregs = (self.qregs[t0], self.qregs[t1])
+            g.set_qreglist(qregs)
+            glist.append(g)
         return glist
 
     def convert_measure(self, measure) :
-- 
2.43.0


From 98733b8b8dfe1e9ed9a3840efaa20125754d9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 39/53] fix: qgate backend's sampling pool uses int, NumPy has
 no np.int

---
 blueqat/backends/qgate_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index 8e1e3f7..26ef006 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -240,7 +240,7 @@ class BlueqatCompatibleSamplingPool :
             self.mask |= 1 << idx
 
     def sample(self, n_samples) :
-        obs = np.empty([n_samples], np.int)
+        obs = np.empty([n_samples], int)
         import random
         for idx in range(n_samples) :
             redprob = self.prob
-- 
2.43.0


From ad2b34347644b092da4c4148c808686e70cda749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 40/53] fix: compare X, Y or Z with the identity operator on
 the right

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 69b8f17..f659e9c 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -252,8 +252,8 @@ class _PauliImpl:
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-            if self.is_identity:
-                return other.is_identity
+            if self.is_identity or other.is_identity:
+                return self.is_identity and other.is_identity
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From 2374dd77f06f8dace5a016a3aef907f5ee39c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 41/53] fix: pickle an Expr with the protocols 0 and 1

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index f659e9c..ccff0cb 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -838,6 +838,10 @@ class Expr(_ExprTuple):
     def __getnewargs__(self):
         return (self.terms,)
 
+    def __reduce__(self):
+        # The pickle protocols 0 and 1 would take the terms for the fields.
+        return self.__class__, self.__getnewargs__()
+
     def to_expr(self):
         """Do nothing. This method is prepared to avoid TypeError."""
         return self
-- 
2.43.0


From 3e52f0a4317e23734f19c2c0440592afd11a3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 42/53] fix: state vector sampler failed when the probabilities
 sum up to more than 1 by rounding

---
 blueqat/vqe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 165fb4f..a093f08 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -269,6 +269,8 @@ def get_state_vector_sampler(n_sample):
         val = 0.0
         e = expect(circuit.run(returns="statevector"), meas)
         bits, probs = zip(*e.items())
+        # By rounding errors, the sum may be a bit larger than 1.
+        probs = np.array(probs) / sum(probs)
         dists = np.random.multinomial(n_sample, probs) / n_sample
         return dict(zip(tuple(bits), dists))
     return sampling_by_measurement
-- 
2.43.0


From 77bf6e74bdd2f6a3a46cfc45cf87dbe23fd24878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 43/53] fix: the deprecated Vqe.result raised AttributeError

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index a093f08..ccc76af 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -186,6 +186,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -199,7 +200,8 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        self._result = VqeResult(self, params, c)
+        return self._result
 
     @property
     def result(self):
-- 
2.43.0


From 0c7f1bb16ee05c82c4bd5762c5936cf256ff1a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 44/53] fix: to_inttuple rejects digits other than 0 and 1

---
 blueqat/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index 5c3a40a..998ed94 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -15,6 +15,12 @@
 """Utilities for convenient."""
 from collections import Counter
 
+def _bits(bitstr):
+    bits = tuple(int(b) for b in bitstr)
+    if any(b not in (0, 1) for b in bits):
+        raise ValueError("bitstr contains illegal character")
+    return bits
+
 def to_inttuple(bitstr):
     """Convert from bit string likes '01011' to int tuple likes (0, 1, 0, 1, 1)
 
@@ -31,11 +37,11 @@ def to_inttuple(bitstr):
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
     if isinstance(bitstr, str):
-        return tuple(int(b) for b in bitstr)
+        return _bits(bitstr)
     if isinstance(bitstr, Counter):
-        return Counter({tuple(int(b) for b in k): v for k, v in bitstr.items()})
+        return Counter({_bits(k): v for k, v in bitstr.items()})
     if isinstance(bitstr, dict):
-        return {tuple(int(b) for b in k): v for k, v in bitstr.items()}
+        return {_bits(k): v for k, v in bitstr.items()}
     raise ValueError("bitstr type shall be `str`, `Counter` or `dict`")
 
 def ignore_global_phase(statevec):
-- 
2.43.0


From 904b03d4c1d8505882452a449192eb372a667690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 45/53] fix: a single Trotter slice is not coupled to itself in
 sqa()

---
 blueqat/wq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index c4c3ab5..da1a633 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -531,7 +531,9 @@ class Opt:
                     else:
                         dE += -2*q[y][j]*q[y][x]*J[j][x] / self.tro
 
-                dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
+                # A single slice is its own neighbour: a flip does not change this coupling.
+                if self.tro > 1:
+                    dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
 
                 if dE < 0 or np.exp(-dE/self.Tf) > np.random.rand():
                     q[y][x] *= -1
-- 
2.43.0


From 354d9ec1be34af36d58cbaf4606339ed38ae7298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 46/53] fix: rbm_model_qubo() and fit() with one shot

---
 blueqat/wq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index da1a633..7040c7b 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -580,6 +580,9 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            # run() returns the only answer itself.
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From 9f1002ff2ca58b712c138aab2dbc09ac01dc3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 47/53] fix: Term.from_paulipair of an identity operator made a
 term that could not be used

---
 blueqat/pauli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ccff0cb..76b57b6 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -382,7 +382,8 @@ class Term(_TermTuple):
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
-        return Term(Term.join_ops((pauli1,), (pauli2,)), 1.0)
+        ops1, ops2 = Term.from_pauli(pauli1).ops, Term.from_pauli(pauli2).ops
+        return Term(Term.join_ops(ops1, ops2), 1.0)
 
     @staticmethod
     def from_pauli(pauli, coeff=1.0):
-- 
2.43.0


From e599b454772350d15b670d1b119bd5f284fe44c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 48/53] fix: refuse to register a gate or macro under the name
 of a circuit's attribute

register_gate('n_qubits', ...) and register_macro('ops', ...) succeeded, but
the instance attribute hides the registered gate or macro.
---
 blueqat/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7200d53..4a3b594 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -316,7 +316,7 @@ class BlueqatGlobalSetting:
             ValueError: The name is duplicated with existing macro, gate or method.
                 When `allow_overwrite=True`, this error is not raised.
         """
-        if hasattr(Circuit, name):
+        if hasattr(Circuit, name) or name in vars(Circuit()):
             if allow_overwrite:
                 warnings.warn(f"Circuit has attribute `{name}`.")
             else:
@@ -361,7 +361,7 @@ class BlueqatGlobalSetting:
             ValueError: The name is duplicated with existing gate.
                 When `allow_overwrite=True`, this error is not raised.
         """
-        if hasattr(Circuit, name):
+        if hasattr(Circuit, name) or name in vars(Circuit()):
             if allow_overwrite:
                 warnings.warn(f"Circuit has attribute `{name}`.")
             else:
-- 
2.43.0


From 6839a19217cd35d0c3f47de215c614d09298ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:48 +0000
Subject: [PATCH 49/53] fix: an interrupt must not leave a gate beyond the
 circuit's register

---
 blueqat/circuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 4a3b594..ca7f483 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -131,8 +131,9 @@ class Circuit:
     def __iadd__(self, other):
         if not isinstance(other, Circuit):
             return NotImplemented
+        # The register first: when interrupted in between, no gate lies beyond it.
+        self.n_qubits = max(other.n_qubits, self.n_qubits)
         self.ops += other.ops
-        self.n_qubits = max(self.n_qubits, other.n_qubits)
         return self
 
     def copy(self, copy_backends=True, copy_default_backend=True,
@@ -284,9 +285,9 @@ class _GateWrapper:
         self.target = args
         op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
-        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        # The register first: when interrupted in between, no gate lies beyond it.
+        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
         self.circuit.ops.append(op)
-        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From 175b198c33e9d3b0aa53e4b260ea3fb47174e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 50/53] fix: nbody_separation must not configure the root
 logger

---
 blueqat/wq.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 7040c7b..9423a64 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -15,6 +15,8 @@
 import logging
 import numpy as np
 
+logger = logging.getLogger(__name__)
+
 def pauli(qubo):
     """
     Convert to pauli operators of universal gate model.
@@ -105,11 +107,11 @@ def nbody_separation(expr, qs):
         import sympy
     except ImportError:
         raise ImportError("This function requires sympy. Please install it.")
-    logging.debug(expr)
+    logger.debug(expr)
     free_symbols = expr.free_symbols
-    logging.debug(free_symbols)
+    logger.debug(free_symbols)
     assert type(expr) == sympy.Add
-    logging.debug(expr.args)
+    logger.debug(expr.args)
     mapping = {}
     new_expr = sympy.expand(0)
     constraints = sympy.expand(0)
@@ -128,18 +130,18 @@ def nbody_separation(expr, qs):
             for v1, v2 in zip(it, it):
                 if (str(v1), str(v2)) in mapping:
                     v = mapping[str(v1), str(v2)]
-                    logging.debug(f"{v1}*{v2} -> {v} (Existed variable)")
+                    logger.debug(f"{v1}*{v2} -> {v} (Existed variable)")
                 else:
                     v = qs[i_var]
                     i_var += 1
                     mapping[(str(v1), str(v2))] = v
-                    logging.debug(f"{v1}*{v2} -> {v} (New variable)")
+                    logger.debug(f"{v1}*{v2} -> {v} (New variable)")
                     constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v
-                    logging.debug(f"constraints: {constraints}")
+                    logger.debug(f"constraints: {constraints}")
                 arg = arg.subs(v1*v2, v)
             syms = arg.free_symbols.copy()
         new_expr += arg
-        logging.debug(f"new_expr: {new_expr}")
+        logger.debug(f"new_expr: {new_expr}")
     return new_expr, constraints, mapping
 
 def qn_to_qubo(expr):
-- 
2.43.0


From 763c3252e6fb629f7ab338fa69d23e7aee05dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:12 +0000
Subject: [PATCH 51/53] fix: importing must not warn of an invalid escape
 sequence

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 76b57b6..0be7c52 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -205,7 +205,7 @@ def commutator(expr1, expr2):
 
 
 def is_commutable(expr1, expr2, eps=0.00000001):
-    """Test whether expr1 and expr2 are commutable.
+    r"""Test whether expr1 and expr2 are commutable.
 
     Args:
         | expr1 (Expr, Term or Pauli operator): Pauli's expression.
-- 
2.43.0


From 247d5c175926c6b5c61ef579d18d8145876d100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:14 +0000
Subject: [PATCH 52/53] fix: printing a gate on a NumPy integer must not
 compare it with a tuple

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index d225f54..293f0a4 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -55,7 +55,7 @@ class Gate(ABC):
             else:
                 return str(obj.__index__())
 
-        if self.targets == ():
+        if isinstance(self.targets, tuple) and not self.targets:
             return '[()]'
         if isinstance(self.targets, tuple):
             return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
-- 
2.43.0


From 9a7640343c4bbe90ddc9f16ed80abf2772b802dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:43 +0000
Subject: [PATCH 53/53] fix: release the state vectors of a run at once

The nested function of a run refers to itself, so its closure kept the
state vectors of every run until the next garbage collection: a VQE
accumulated dozens of them.
---
 blueqat/backends/_numba_backend_impl.py | 4 ++++
 blueqat/backends/numpy_backend.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 3999136..6d73c04 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -453,6 +453,10 @@ class NumbaBackend(Backend):
             if ctx.cregs:
                 ctx.store_shot()
 
+        # The recursive function refers to itself. Break the cycle: otherwise
+        # the state vectors are kept until the next garbage collection.
+        del run_single_gate
+
         if ignore_global:
             _ignore_global(ctx.qubits)
         return self.__return_type[returns](ctx)
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index 48849a1..f99c466 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -140,6 +140,10 @@ class NumPyBackend(Backend):
             if ctx.cregs:
                 ctx.store_shot()
 
+        # The recursive function refers to itself. Break the cycle: otherwise
+        # the state vectors are kept until the next garbage collection.
+        del run_single_gate
+
         if ignore_global:
             ignore_global_phase(ctx.qubits)
         return self.__return_type[returns](ctx)
-- 
2.43.0


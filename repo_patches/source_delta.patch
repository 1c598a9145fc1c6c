From 5b272cf79822647d8683afe9a869aa5e495091df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 01/45] fix: accept nested target tuples when appending a
 two-qubit gate

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..b97f7be 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -694,7 +694,7 @@ def get_maximum_index(indices):
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-        return max((_maximum_idx_single(i) for i in indices), default=-1)
+        return max((get_maximum_index(i) for i in indices), default=-1)
     else:
         return _maximum_idx_single(indices)
 
-- 
2.43.0


From e92b33ab631481e5a3f6ee1b95455da7988e132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 02/45] fix: leave the circuit unchanged when appending a gate
 fails

---
 blueqat/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..d74dbe0 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,10 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From d925b735523d9b388a9805119afc053fa4fa2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/45] fix: out-of-range negative qubit index raises
 IndexError in every backend

---
 blueqat/gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index b97f7be..0ff7883 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -652,6 +652,8 @@ def slicing_singlevalue(arg, length):
             raise TypeError("indices must be integers or slices, not " + arg.__class__.__name__)
         if i < 0:
             i += length
+            if i < 0:
+                raise IndexError("qubit index out of range")
         yield i
 
 
-- 
2.43.0


From a94c1d91c1f6caa6ef1a6c6779d585906ca4d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 04/45] fix: resolve and validate three-qubit gate targets like
 other gates

---
 blueqat/backends/_numba_backend_impl.py |  4 ++--
 blueqat/backends/numpy_backend.py       |  4 ++--
 blueqat/backends/qasm_output_backend.py |  2 +-
 blueqat/backends/qgate_backend.py       |  2 +-
 blueqat/gate.py                         | 21 ++++++++++++++++-----
 5 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..1918c07 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -582,13 +582,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(gate.resolve_targets(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(gate.resolve_targets(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..e4d00d5 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -357,9 +357,9 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
+        c1, c2, t = gate.resolve_targets(n_qubits)
         i = ctx.indices
         indices = (i & (1 << c1)) != 0
         indices &= (i & (1 << c2)) != 0
@@ -368,7 +368,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.resolve_targets(ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
         ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
         ctx = self.gate_h(HGate(t), ctx)
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..1af50bb 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -117,7 +117,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = gate.resolve_targets(ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index bf03525..0c09147 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -123,7 +123,7 @@ class QgateBackend(Backend) :
             elif isinstance(gate, bqgate.ToffoliGate) :
                 gt = typeinfo[0](*gate.params)
                 g = model.Gate(gt)
-                c0, c1, t = gate.targets
+                c0, c1, t = gate.resolve_targets(self.n_qubits)
                 ctrls = (self.qregs[c0], self.qregs[c1])
                 qreg = self.qregs[t]
                 g.set_ctrllist(ctrls)
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 0ff7883..f3e2ec7 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -94,6 +94,17 @@ class TwoQubitGate(Gate):
         return gates
 
 
+class ThreeQubitGate(Gate):
+    """Abstract quantum gate class for 3 qubits gate."""
+
+    def resolve_targets(self, n_qubits):
+        """Returns the tuple of three different qubit indices."""
+        targets = tuple(slicing(self.targets, n_qubits))
+        if len(targets) != 3 or len(set(targets)) != 3:
+            raise ValueError("Three different qubits are required.")
+        return targets
+
+
 class IGate(OneQubitGate):
     """Identity gate"""
     lowername = "i"
@@ -565,7 +576,7 @@ class CU3Gate(TwoQubitGate):
             ])
 
 
-class ToffoliGate(Gate):
+class ToffoliGate(ThreeQubitGate):
     """Toffoli (CCX) gate"""
     lowername = "ccx"
 
@@ -573,7 +584,7 @@ class ToffoliGate(Gate):
         return self
 
     def fallback(self, n_qubits):
-        c1, c2, t = self.targets
+        c1, c2, t = self.resolve_targets(n_qubits)
         return [
             HGate(t),
             CXGate((c2, t)),
@@ -593,7 +604,7 @@ class ToffoliGate(Gate):
         ]
 
 
-class CCZGate(Gate):
+class CCZGate(ThreeQubitGate):
     """2-Controlled Z gate"""
     lowername = "ccz"
 
@@ -601,7 +612,7 @@ class CCZGate(Gate):
         return self
 
 
-class CSwapGate(Gate):
+class CSwapGate(ThreeQubitGate):
     """Controlled SWAP gate"""
     lowername = "cswap"
 
@@ -610,7 +621,7 @@ class CSwapGate(Gate):
 
     def fallback(self, n_qubits):
         # TODO: test
-        c, t1, t2 = self.targets
+        c, t1, t2 = self.resolve_targets(n_qubits)
         return [CXGate((t2, t1)),
                 ToffoliGate((c, t1, t2)),
                 CXGate((t2, t1))]
-- 
2.43.0


From 5ae66503dcb84795ba33855e26bff015f303072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 05/45] fix: time evolution of Y factors has the same sign as
 of X and Z

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..2295fce 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -601,7 +601,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -612,7 +612,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From b836381fe61471a91786897146d674a3d6f886f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 06/45] fix: measure Y factors in the +Y basis when sampling
 the energy

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 8cd54a251a1eb58467b140e6105271f940a5ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 07/45] fix: measurement sampler reads bits in qubit order and
 keeps the circuit intact

---
 blueqat/vqe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..b0ef781 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,16 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
+        circuit = circuit.copy()
         circuit.measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From c337ef3fdb09b0f3c7d76cdad6ebc29307a39d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 08/45] fix: qiskit sampler keeps the circuit intact and
 normalises the empty measurement

---
 blueqat/vqe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b0ef781..e12c04b 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -312,10 +312,13 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
+            return {(): 1.0}
+        circuit = circuit.copy()
         circuit.measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From 45041b18ff567512a6ad577770a2bcbef2be0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 09/45] fix: unregister_backend looks the name up among the
 backends

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index d74dbe0..bf25277 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -426,7 +426,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From 66ff539446efc6ad23db2948e5adbf322d7c0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 10/45] fix: Circuit.set_default_backend accepts None as
 documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index bf25277..5f0b7a9 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From db35ebe50a7e6d72c7838e20af78dcbdcd13e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 11/45] fix: the identity operator is hashable

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 2295fce..8e62cbd 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,7 +243,7 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
-        return hash((self.op, _n(self)))
+        return hash((self.op, None if self.is_identity else _n(self)))
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-- 
2.43.0


From 1ced7b45c73cf43236bad00458f66db088aabe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 12/45] fix: comparing a Term compares the represented
 operators

---
 blueqat/pauli.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 8e62cbd..ae318ed 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -497,8 +497,15 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
-        return _TermTuple.__eq__(self, other) or \
-               _TermTuple.__eq__(self.simplify(), other.simplify())
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
+        if _TermTuple.__eq__(self, other):
+            return True
+        lhs = self.simplify()
+        rhs = other.simplify()
+        return lhs.coeff == rhs.coeff and (lhs.ops == rhs.ops or lhs.coeff == 0)
 
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From b3b0e1fc9d714288cd583aab69d1bd3f87474cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/45] fix: arithmetic between Pauli expressions and NumPy or
 complex numbers

---
 blueqat/pauli.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ae318ed..a149c32 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # Let NumPy's numbers leave arithmetic operations to this class.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -371,6 +374,9 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    # Let NumPy's numbers leave arithmetic operations to this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -450,7 +456,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
@@ -652,6 +658,9 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    # Let NumPy's numbers leave arithmetic operations to this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From a791a062a03210b9e78c7d07dc0bb3fbe9fabc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 14/45] fix: adding to an expression keeps all terms with equal
 operators

---
 blueqat/pauli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index a149c32..3acdf30 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -682,7 +682,10 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for ops, coeff in self.terms:
+            terms[ops] = terms.get(ops, 0) + coeff
+        return {ops: coeff for ops, coeff in terms.items() if coeff}
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From c0007f4096271b7ba8f2103d679f146f8ca668fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 15/45] fix: matrix of the zero expression

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 3acdf30..b98797e 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -899,6 +899,8 @@ class Expr(_ExprTuple):
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
         gr_terms = [list(g) for _, g in groupby(sorted(expr.terms, key=grpkey), key=grpkey)]
+        if not gr_terms:
+            gr_terms = [[Term((), 0.0)]]
         n_groups = len(gr_terms)
         n_vals = n_groups * dim
         dtype_idx = np.int32 if n_qubits < 31 else np.int64
-- 
2.43.0


From 6cceb8811acabbb7f99dc8dfae9b5e36663c183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 16/45] fix: the simulators' state cache is only used for the
 gates it was made from

---
 blueqat/backends/_numba_backend_impl.py | 28 +++++++++++++++++++------
 blueqat/backends/numpy_backend.py       | 20 ++++++++++++++++--
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 1918c07..957a52b 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -46,6 +47,7 @@ class _NumbaBackendContext:
         self.n_qubits = n_qubits
         self.qubits = np.zeros(2**n_qubits, dtype)
         self.save_cache = save_cache
+        self.cache = None
         self.shots_result = Counter()
         self.cregs = None
 
@@ -368,15 +370,29 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
+
+    def copy(self):
+        """Returns copy of Backend. The cache remains valid for the same gates."""
+        copied = copy.copy(self)
+        if self.cache is not None:
+            copied.cache = self.cache.copy()
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        if len(self.cache_gates) > len(gates) or \
+           any(cached is not gate for cached, gate in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -406,7 +422,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -429,8 +445,8 @@ class NumbaBackend(Backend):
                     cache_idx += 1
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
-                if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
+                self.cache_gates = gates[:cache_idx + 1]
+                self.cache = ctx.qubits.copy() if ctx.save_cache else ctx.cache
             if ctx.cregs:
                 ctx.store_shot()
 
@@ -611,7 +627,7 @@ class NumbaBackend(Backend):
 
     def gate_measure(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
@@ -628,7 +644,7 @@ class NumbaBackend(Backend):
 
     def gate_reset(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index e4d00d5..fd4f244 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,15 +69,29 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def copy(self):
+        """Returns copy of Backend. The cache remains valid for the same gates."""
+        copied = copy.copy(self)
+        if self.cache is not None:
+            copied.cache = self.cache.copy()
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
+
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        if len(self.cache_gates) > len(gates) or \
+           any(cached is not gate for cached, gate in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -104,7 +119,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -123,6 +138,7 @@ class NumPyBackend(Backend):
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
                     self.cache_idx += 1
+                    self.cache_gates.append(gate)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From 9b778445d2b3d405c4eeb638f0730d7fa17b9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 17/45] fix: symbolic unitary of repeated targets and of an
 empty register

---
 blueqat/backends/sympy_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..72c166d 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -76,11 +76,11 @@ class SympyBackend(Backend):
         targets = [idx for idx in targets]
         gates = []
         for idx in range(n_qubits):
-            if idx in targets:
-                gates.append(matrix_of_gate)
-            else:
-                gates.append(eye(2))
-        return reduce(TensorProduct, reversed(gates))
+            matrix = eye(2)
+            for _ in range(targets.count(idx)):
+                matrix = matrix_of_gate * matrix
+            gates.append(matrix)
+        return reduce(TensorProduct, reversed(gates), eye(1))
 
     def _create_matrix_of_one_qubit_gate_circuit(self, gate, ctx, matrix_of_gate):
         n_qubits = ctx.n_qubits
-- 
2.43.0


From 71f83fea8243784a8c369e57764139911c1f54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 18/45] fix: qn_to_qubo keeps terms with coefficient 1 and
 accumulates

---
 blueqat/wq.py | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..832db12 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -156,39 +156,15 @@ def qn_to_qubo(expr):
         import sympy
     except ImportError:
         raise ImportError("This function requires sympy. Please install it.")
-    assert type(expr) == sympy.Add
+    expr = sympy.expand(expr)
     to_i = lambda s: int(str(s)[1:])
     max_i = max(map(to_i, expr.free_symbols)) + 1
     qubo = [[0.] * max_i for _ in range(max_i)]
-    for arg in expr.args:
-        syms = arg.free_symbols
+    for arg in sympy.Add.make_args(expr):
+        syms = sorted(map(to_i, arg.free_symbols))
         assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+        if syms:
+            qubo[syms[0]][syms[-1]] += float(arg.as_coeff_Mul()[0])
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 1a6c0f6fa2fb5a8bcb7b5cd99ad8060c08d3c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 19/45] fix: Opt accepts a QUBO given as NumPy array

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 832db12..d39b6c4 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -449,7 +449,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1 == 0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -458,7 +458,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -509,7 +509,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -547,7 +547,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From d030e4b991fa0352f7837f4138a6caeb488dc97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 20/45] fix: QaoaAnsatz with an initial circuit larger than the
 Hamiltonian

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index e12c04b..f35321b 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From be5061dcf0b623e37745a0be1dbf17cd6d3f6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 21/45] fix: wq.mul of two different arrays

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d39b6c4..87d1bb2 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -215,7 +215,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From dd3c1f79ff89f334f17ade9571af7943f2be2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 22/45] fix: wq.net doesn't rewrite the given edges

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 87d1bb2..449ec86 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -237,8 +237,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From e5562cce0a348546a262161ffcade19fe6ee0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 23/45] fix: Vqe.result returns the result of the last run

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index f35321b..b31df5f 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -180,6 +180,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -193,7 +194,8 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        self._result = VqeResult(self, params, c)
+        return self._result
 
     @property
     def result(self):
-- 
2.43.0


From 8774ebb2d1986eb72bea309a460b548cf4065776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 24/45] fix: Opt.sqa reports only its own energies

---
 blueqat/wq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 449ec86..5b61c14 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -509,6 +509,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
+        self.E = []
         if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
-- 
2.43.0


From 3ba48c86e61e81385b18d52c7461d115e9c1f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 25/45] fix: wq.optm of variables with a constant coefficient

---
 blueqat/wq.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 5b61c14..e39cd8d 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,7 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        optm_M[i][i] = optm_E.coeff(symbol_list[i]).as_coeff_Add()[0]
 
     return optm_M
 
-- 
2.43.0


From c7baceab756188f8386f377aebe7c0f0ebf036e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 26/45] fix: Opt.add of expressions with skipped variables or
 several squares

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index e39cd8d..8994881 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -413,7 +413,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
@@ -434,7 +434,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 1d5f8d9d61b7cafcd8224b9b07433087e500786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 27/45] fix: Opt.add of a problem with another number of
 variables

---
 blueqat/wq.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 8994881..11874fd 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -446,10 +446,15 @@ class Opt:
         if(isinstance(qubo,str)):
             qubo = self.qubo_to_matrix(self.expand_qubo(qubo))
         len2 = len(qubo)
-        if(len1==len2):
-                self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(len1 == 0):
+        if(len1 == 0):
             self.qubo = M*np.array(qubo)
+        elif(len1==len2):
+                self.qubo = np.array(self.qubo)+M*np.array(qubo)
+        else:
+            total = np.zeros((max(len1,len2),max(len1,len2)))
+            total[:len1,:len1] += self.qubo
+            total[:len2,:len2] += M*np.array(qubo)
+            self.qubo = total
         return self
 
     def run(self,shots=1,sampler="normal",targetT=0.02,verbose=False):
-- 
2.43.0


From 56d84a2a2cbcaf7b9c817a8fa52d000fd6196a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 28/45] fix: the inverse of a multi-pair two-qubit gate applies
 the pairs in reverse

---
 blueqat/gate.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index f3e2ec7..d76f0dd 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -83,9 +83,22 @@ class OneQubitGate(Gate):
 class TwoQubitGate(Gate):
     """Abstract quantum gate class for 2 qubits gate."""
 
+    # The gate is applied on the last pair of (control, target) first.
+    reverse_pairs = False
+
     def control_target_iter(self, n_qubits):
         """The generator which yields the tuples of (control, target) qubits."""
-        return qubit_pairs(self.targets, n_qubits)
+        pairs = qubit_pairs(self.targets, n_qubits)
+        if self.reverse_pairs:
+            return reversed(tuple(pairs))
+        return pairs
+
+    def _reversed(self, gate):
+        """Make `gate` be applied on the pairs in the reverse order of `self`.
+
+        When the pairs share qubits, the order matters for the Hermitian conjugate."""
+        gate.reverse_pairs = not self.reverse_pairs
+        return gate
 
     def _make_fallback_for_control_target_iter(self, n_qubits, fallback):
         gates = []
@@ -310,7 +323,7 @@ class CXGate(TwoQubitGate):
     lowername = "cx"
 
     def dagger(self):
-        return self
+        return self._reversed(CXGate(self.targets, **self.kwargs))
 
 
 class CZGate(TwoQubitGate):
@@ -326,7 +339,7 @@ class CYGate(TwoQubitGate):
     lowername = "cy"
 
     def dagger(self):
-        return self
+        return self._reversed(CYGate(self.targets, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -341,7 +354,7 @@ class CHGate(TwoQubitGate):
     lowername = "ch"
 
     def dagger(self):
-        return self
+        return self._reversed(CHGate(self.targets, **self.kwargs))
 
     def fallback(self, n_qubits):
         # Ignores global phase
@@ -361,7 +374,7 @@ class CRXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRXGate(self.targets, -self.theta, **self.kwargs)
+        return self._reversed(CRXGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -381,7 +394,7 @@ class CRYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRYGate(self.targets, -self.theta, **self.kwargs)
+        return self._reversed(CRYGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -499,7 +512,7 @@ class SwapGate(TwoQubitGate):
     lowername = "swap"
 
     def dagger(self):
-        return self
+        return self._reversed(SwapGate(self.targets, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -545,7 +558,7 @@ class CU2Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs)
+        return self._reversed(CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -563,7 +576,7 @@ class CU3Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)
+        return self._reversed(CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
-- 
2.43.0


From f6cc8adf35300711cf1f4a9103508e02f1a18ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 29/45] fix: the symbolic unitary keeps angles that are only
 close to a fraction of pi

---
 blueqat/backends/sympy_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 72c166d..10c2bf3 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import numpy as np
+import math
 import warnings
 from functools import reduce
 from .backendbase import Backend
@@ -29,7 +30,8 @@ def _angle_simplify(ang):
     if isinstance(ang, float):
         nsimp = sympy.nsimplify(ang / np.pi)
         numer, denom = nsimp.as_numer_denom()
-        if denom < 1e12:
+        # nsimplify may return a merely close number.
+        if denom < 1e12 and math.isclose(float(nsimp), ang / np.pi, rel_tol=1e-13):
             return pi * numer / denom
     return ang
 
-- 
2.43.0


From dc52c7e6824e46110c93ce6ca2a8be74f0dc4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 30/45] fix: to_unitary(ignore_global=True) with an
 unsimplified zero on the diagonal

---
 blueqat/backends/sympy_backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 10c2bf3..a423a33 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -36,6 +36,12 @@ def _angle_simplify(ang):
     return ang
 
 
+def _is_zero(expr):
+    """Whether the expression vanishes; it may be zero without being simplified to zero."""
+    values = {s: 1 / (math.e + i) for i, s in enumerate(sorted(expr.free_symbols, key=str))}
+    return abs(complex(expr.subs(values).evalf())) < 1e-8
+
+
 class _SympyBackendContext:
     def __init__(self, n_qubits, ignore_global):
         self.n_qubits = n_qubits
@@ -167,6 +173,6 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                if not _is_zero(mat[i, i]):
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From 8e9bfc652ee8be69d6a7efae771ff7bf2dbc7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 31/45] fix: the identity gate checks its targets like other
 gates

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index d76f0dd..62c7994 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -123,7 +123,7 @@ class IGate(OneQubitGate):
     lowername = "i"
 
     def fallback(self, n_qubits):
-        return []
+        return self._make_fallback_for_target_iter(n_qubits, lambda t: [])
 
     def dagger(self):
         return self
-- 
2.43.0


From 71470dd29c83d77b32bd2c8bcb50886554023284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 32/45] fix: comparing a Pauli operator with the identity

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index b98797e..999bd38 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -250,8 +250,8 @@ class _PauliImpl:
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-            if self.is_identity:
-                return other.is_identity
+            if self.is_identity or other.is_identity:
+                return self.is_identity and other.is_identity
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From 95840cf42265ea4708390396b6809202310b499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 33/45] fix: matrix of an unsimplified scalar on no qubits

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 999bd38..61f9125 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -635,7 +635,7 @@ class Term(_TermTuple):
         if n_qubits == -1:
             n_qubits = self.n_qubits
         if n_qubits == 0:
-            m = np.array([[self.coeff]])
+            m = np.array([[self.simplify().coeff]])
             if sparse is None:
                 return m
             return _sparse_types[sparse](m)
@@ -890,7 +890,7 @@ class Expr(_ExprTuple):
         if n_qubits == -1:
             n_qubits = self.n_qubits
         if n_qubits == 0:
-            m = np.array([[sum(term.coeff for term in self.terms)]])
+            m = np.array([[sum(term.coeff for term in self.simplify().terms)]])
             if sparse is None:
                 return m
             return _sparse_types[sparse](m)
-- 
2.43.0


From 72cdeaca3265d7cbc0c7e99acfe158d223e8491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 34/45] fix: sampled energy of unsimplified terms

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b31df5f..e7491c2 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,7 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for meas in self.hamiltonian.simplify():
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0


From 3486d196c3e9ba4e24f517d95f59b58821e7d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 35/45] fix: state vector sampler with probabilities rounded
 above one

---
 blueqat/vqe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index e7491c2..058f7bd 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -266,7 +266,8 @@ def get_state_vector_sampler(n_sample):
         val = 0.0
         e = expect(circuit.run(returns="statevector"), meas)
         bits, probs = zip(*e.items())
-        dists = np.random.multinomial(n_sample, probs) / n_sample
+        probs = np.array(probs)
+        dists = np.random.multinomial(n_sample, probs / probs.sum()) / n_sample
         return dict(zip(tuple(bits), dists))
     return sampling_by_measurement
 
-- 
2.43.0


From 3c0b3ecda9f8224c7692d54a94ccff6591aeb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 36/45] fix: sign of the replica coupling in the energies of
 Opt.sqa

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 11874fd..a485b88 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -177,7 +177,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From b30ded23988698395d0c6214a421958ee7d460bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 37/45] fix: a circuit uses the backend currently registered
 under a name

---
 blueqat/circuit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 5f0b7a9..5960312 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -87,6 +87,7 @@ class Circuit:
     def __init__(self, n_qubits=0, ops=None):
         self.ops = ops or []
         self._backends = {}
+        self._backend_makers = {}
         self._default_backend = None
         self.n_qubits = n_qubits
 
@@ -94,13 +95,13 @@ class Circuit:
         return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
 
     def __get_backend(self, backend_name):
-        try:
-            return self._backends[backend_name]
-        except KeyError:
-            backend = BACKENDS.get(backend_name)
-            if backend is None:
-                raise ValueError(f"Backend {backend_name} doesn't exist.")
-        self._backends[backend_name] = backend()
+        backend = BACKENDS.get(backend_name)
+        if backend is None:
+            raise ValueError(f"Backend {backend_name} doesn't exist.")
+        if self._backend_makers.get(backend_name) is not backend:
+            # Not used yet, or another backend was registered under this name.
+            self._backends[backend_name] = backend()
+            self._backend_makers[backend_name] = backend
         return self._backends[backend_name]
 
     def __backend_runner_wrapper(self, backend_name):
@@ -146,6 +147,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, self.ops.copy())
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_makers = self._backend_makers.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
@@ -179,6 +181,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_makers = self._backend_makers.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From 9b5b2fbcf9b336da77e6649cf311eb43a0f25f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:17 +0000
Subject: [PATCH 38/45] fix: returns="_exception" of the ibmq backend returns
 the import error

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From 0eed42a9fa56f9f82a7ca4c9c3e00bd60e4a4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 39/45] fix: to_inttuple rejects characters other than 0 and 1

---
 blueqat/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index 5c3a40a..1208da2 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -15,6 +15,12 @@
 """Utilities for convenient."""
 from collections import Counter
 
+def _bits_to_tuple(bits):
+    converted = tuple(int(b) for b in bits)
+    if any(b not in (0, 1) for b in converted):
+        raise ValueError(f"bitstr contains illegal character: {bits!r}")
+    return converted
+
 def to_inttuple(bitstr):
     """Convert from bit string likes '01011' to int tuple likes (0, 1, 0, 1, 1)
 
@@ -31,11 +37,11 @@ def to_inttuple(bitstr):
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
     if isinstance(bitstr, str):
-        return tuple(int(b) for b in bitstr)
+        return _bits_to_tuple(bitstr)
     if isinstance(bitstr, Counter):
-        return Counter({tuple(int(b) for b in k): v for k, v in bitstr.items()})
+        return Counter({_bits_to_tuple(k): v for k, v in bitstr.items()})
     if isinstance(bitstr, dict):
-        return {tuple(int(b) for b in k): v for k, v in bitstr.items()}
+        return {_bits_to_tuple(k): v for k, v in bitstr.items()}
     raise ValueError("bitstr type shall be `str`, `Counter` or `dict`")
 
 def ignore_global_phase(statevec):
-- 
2.43.0


From 1ab27d73cd98aadf2c0eaebf6cf60e40ad39d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 40/45] fix: the qgate backend resolves the targets of swap
 gates

---
 blueqat/backends/qgate_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index 0c09147..d903bc5 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -136,11 +136,11 @@ class QgateBackend(Backend) :
 
     def convert_multi_qubit_gate(self, gate, typeinfo) :
         glist = list()
-        g = model.MultiQubitGate(typeinfo[0](*gate.params))
-        t0, t1 = gate.targets
-        qregs = (self.qregs[t0], self.qregs[t1])
-        g.set_qreglist(qregs)
-        glist.append(g)
+        for t0, t1 in gate.control_target_iter(self.n_qubits) :
+            g = model.MultiQubitGate(typeinfo[0](*gate.params))
+            qregs = (self.qregs[t0], self.qregs[t1])
+            g.set_qreglist(qregs)
+            glist.append(g)
         return glist
 
     def convert_measure(self, measure) :
-- 
2.43.0


From 05e5a2e33388957b666dda13b58ad3efcf0a2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 41/45] fix: sampling='blueqat' of the qgate backend with
 current NumPy

---
 blueqat/backends/qgate_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index d903bc5..903b520 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -240,7 +240,7 @@ class BlueqatCompatibleSamplingPool :
             self.mask |= 1 << idx
 
     def sample(self, n_samples) :
-        obs = np.empty([n_samples], np.int)
+        obs = np.empty([n_samples], int)
         import random
         for idx in range(n_samples) :
             redprob = self.prob
-- 
2.43.0


From af366944e3143bf15a08716251679b2dd2fd890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:40 +0000
Subject: [PATCH 42/45] fix: dw hands each bias to its own node whatever the
 order of solver.nodes

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index a485b88..0dfa1f0 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -557,11 +557,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From c157662d91c05f9cfa6a040bfa9d9087266f545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:40 +0000
Subject: [PATCH 43/45] fix: rbm_model_qubo and fit with a single shot

---
 blueqat/wq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 0dfa1f0..84c4cd0 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -579,6 +579,9 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            # run() returns a bare sample instead of a list of samples.
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From 4cf1f80a0d924e5401e24593da2bcbca35f60cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:09 +0000
Subject: [PATCH 44/45] fix: repr of circuits with nested or empty targets and
 without gates

---
 blueqat/circuit.py                 |  2 +-
 blueqat/experimental/operations.py |  2 +-
 blueqat/gate.py                    | 19 ++++++++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 5960312..69723fd 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -92,7 +92,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return f'Circuit({self.n_qubits})' + ''.join(f'.{op}' for op in self.ops)
 
     def __get_backend(self, backend_name):
         backend = BACKENDS.get(backend_name)
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..1a8c509 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return f'Ops({self.n_qubits})' + ''.join(f'.{op}' for op in self.ops)
 
     def __getattr__(self, name):
         if name in GATE_SET:
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 62c7994..25273e5 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -52,13 +52,26 @@ class Gate(ABC):
                 else:
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
+            elif isinstance(obj, tuple):
+                return _nested_to_str(obj)
             else:
                 return str(obj.__index__())
 
-        if isinstance(self.targets, tuple):
-            return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
-        else:
+        def _nested_to_str(obj):
+            # The notation start:stop:step is not available inside a nested tuple.
+            if isinstance(obj, tuple):
+                comma = ',' if len(obj) == 1 else ''
+                return f"({', '.join(_nested_to_str(target) for target in obj)}{comma})"
+            if isinstance(obj, slice):
+                args = (None if i is None else i.__index__() for i in (obj.start, obj.stop, obj.step))
+                return f"slice({', '.join(str(i) for i in args)})"
+            return str(obj.__index__())
+
+        if not isinstance(self.targets, tuple):
             return f"[{_slice_to_str(self.targets)}]"
+        if not self.targets:
+            return '[()]'
+        return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
 
     def __str__(self) -> str:
         str_args = self._str_args()
-- 
2.43.0


From 3c5d884169e6646b53cb0f914e53cab4f1d46e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:39 +0000
Subject: [PATCH 45/45] fix: pickling of Pauli expressions with protocols 0 and
 1

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 61f9125..7cb9c04 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -836,6 +836,10 @@ class Expr(_ExprTuple):
     def __getnewargs__(self):
         return (self.terms,)
 
+    def __reduce__(self):
+        # Pickle protocols 0 and 1 would read the fields through __iter__, which yields terms.
+        return type(self), (self.terms,)
+
     def to_expr(self):
         """Do nothing. This method is prepared to avoid TypeError."""
         return self
-- 
2.43.0


From cdc929eef9123d02d2c2e86d41361739d9f4e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 01/35] fix: unregister_backend looks the name up among the
 backends, not the gates

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..ddcc8c8 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -425,7 +425,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From 4804e9e6d0b04e3cbba42bbbb928fdbb642a8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 02/35] fix: Circuit.set_default_backend(None) returns to the
 global default

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index ddcc8c8..9ed12f3 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From 072e994119429dfd16a782869ef51a204d660aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 03/35] fix: compute the width for pairs given as tuples, e.g.
 cx[(0, 1), (2, 3)]

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..b97f7be 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -694,7 +694,7 @@ def get_maximum_index(indices):
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-        return max((_maximum_idx_single(i) for i in indices), default=-1)
+        return max((get_maximum_index(i) for i in indices), default=-1)
     else:
         return _maximum_idx_single(indices)
 
-- 
2.43.0


From 170190e024840d39251c8e98481c80995d6ee28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 04/35] fix: dagger(copy_backends=True) doesn't reuse the
 caches of the original circuit

---
 blueqat/backends/_numba_backend_impl.py | 3 +++
 blueqat/backends/backendbase.py         | 6 ++++++
 blueqat/backends/numpy_backend.py       | 3 +++
 blueqat/circuit.py                      | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..fe0765b 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -373,6 +373,9 @@ class NumbaBackend(Backend):
         self.cache = None
         self.cache_idx = -1
 
+    def clear_cache(self):
+        self.__clear_cache()
+
     def __clear_cache_if_invalid(self, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
diff --git a/blueqat/backends/backendbase.py b/blueqat/backends/backendbase.py
index f34b01e..cf98442 100644
--- a/blueqat/backends/backendbase.py
+++ b/blueqat/backends/backendbase.py
@@ -30,6 +30,12 @@ class Backend(ABC):
         """
         return copy.deepcopy(self)
 
+    def clear_cache(self):
+        """Discard the internal cache made by `make_cache` or earlier runs.
+
+        Backends which have a cache override this method."""
+        return None
+
     def _preprocess_run(self, gates, n_qubits, args, kwargs):
         """Preprocess of backend run.
         Backend developer can override this function.
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..a950e12 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -73,6 +73,9 @@ class NumPyBackend(Backend):
         self.cache = None
         self.cache_idx = -1
 
+    def clear_cache(self):
+        self.__clear_cache()
+
     def __clear_cache_if_invalid(self, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 9ed12f3..8d3336e 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -179,6 +179,9 @@ class Circuit:
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            # The caches are made for the original operations.
+            for backend in copied._backends.values():
+                backend.clear_cache()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From f996131f59304fb963522443dd64ed21bc35a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 05/35] fix: numba backend stores the cached state and its
 index together

When a run was interrupted after a measurement, the state was already
cached but the index still said that no gate had been applied.
---
 blueqat/backends/_numba_backend_impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index fe0765b..2914daf 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -46,6 +46,7 @@ class _NumbaBackendContext:
         self.n_qubits = n_qubits
         self.qubits = np.zeros(2**n_qubits, dtype)
         self.save_cache = save_cache
+        self.cache = None
         self.shots_result = Counter()
         self.cregs = None
 
@@ -431,9 +432,8 @@ class NumbaBackend(Backend):
                 if ctx.save_cache:
                     cache_idx += 1
             if self.cache_idx != cache_idx:
+                self.cache = ctx.qubits.copy() if ctx.save_cache else ctx.cache
                 self.cache_idx = cache_idx
-                if ctx.save_cache:
-                    self.cache = ctx.qubits.copy()
             if ctx.cregs:
                 ctx.store_shot()
 
@@ -614,7 +614,7 @@ class NumbaBackend(Backend):
 
     def gate_measure(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
@@ -631,7 +631,7 @@ class NumbaBackend(Backend):
 
     def gate_reset(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-- 
2.43.0


From e6676ae94e606ae5d64dbd95947f0dbd3be734a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/35] fix: measure Y terms in the Y basis, not its negative

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 104aeb85c7adb8c5b5140dbd82d1363ac672b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 07/35] fix: time evolution of terms with an odd number of Y
 evolved in the opposite direction

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..2295fce 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -601,7 +601,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -612,7 +612,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From 98c56979716ee86aa0261bdd8587e3d845f603b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 08/35] fix: samplers of vqe return the requested qubits' bits
 and keep the circuit unmodified

get_measurement_sampler read the bit string backwards, both measuring
samplers appended the measurement to the caller's circuit and kept only one
of the bit strings which agree on the requested qubits, and the qiskit
sampler gave no outcome at all for the constant term.
---
 blueqat/vqe.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..77456af 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,15 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
@@ -309,10 +311,12 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
-        circuit.measure[meas]
+            return {(): 1.0}
+        circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From c3c90fad24751d6bf029b85bb47a92f3ef4840f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 09/35] fix: adding to an Expr with several terms of the same
 operators loses none of them

---
 blueqat/pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 2295fce..e88eb53 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -666,7 +666,11 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = defaultdict(float)
+        for ops, coeff in self.terms:
+            if coeff:
+                terms[ops] += coeff
+        return dict(terms)
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 2f311ae5457484d87bdb1041fc08bd5b16e7cc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 10/35] fix: comparing a Term with an Expr, with 0 or with an
 unrelated object

---
 blueqat/pauli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index e88eb53..298aa5b 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -497,8 +497,13 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
-        return _TermTuple.__eq__(self, other) or \
-               _TermTuple.__eq__(self.simplify(), other.simplify())
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if isinstance(other, Term):
+            return _TermTuple.__eq__(self, other) or \
+                   _TermTuple.__eq__(self.simplify(), other.simplify()) or \
+                   self.coeff == other.coeff == 0
+        return NotImplemented
 
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From ca90f6c7d113f8cc2d35709bb3795c25056506fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 11/35] fix: the identity operator is hashable

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 298aa5b..c48c8c8 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,7 +243,7 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
-        return hash((self.op, _n(self)))
+        return hash((self.op, None if self.is_identity else _n(self)))
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-- 
2.43.0


From aa70384bf32fd7a1fe1d26f80a8f256efd757b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 12/35] fix: a Term can be divided by any number, like Pauli
 operators

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index c48c8c8..98d3267 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -450,7 +450,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From 2ced2a2df7f6be5f065e1d444e0b4a8db28d9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 13/35] fix: matrix of an Expr whose terms cancel out is the
 zero matrix

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 98d3267..b06d68f 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -901,9 +901,9 @@ class Expr(_ExprTuple):
                 val_acc += _term_to_dataarray(term, n_qubits, is_csr)
             vals[i_grp::n_groups] = val_acc
         if not is_csr:
-            m = scipy.sparse.csc_matrix((vals, inds, np.arange(0, n_vals + 1, n_groups)), shape=(dim, dim))
+            m = scipy.sparse.csc_matrix((vals, inds, np.arange(dim + 1) * n_groups), shape=(dim, dim))
         else:
-            m = scipy.sparse.csr_matrix((vals, inds, np.arange(0, n_vals + 1, n_groups)), shape=(dim, dim))
+            m = scipy.sparse.csr_matrix((vals, inds, np.arange(dim + 1) * n_groups), shape=(dim, dim))
         m.eliminate_zeros()
         if sparse is None:
             return m.toarray()
-- 
2.43.0


From 0b50ff3d10a577533d448b7502d50e28dd9972d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 14/35] fix: Opt accepts QUBO matrices which are numpy arrays

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..d7d7a69 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From d05053b46b6f3c88973daddd0c855812dacf9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 15/35] fix: net doesn't overwrite the list of edges given by
 the caller

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d7d7a69..a789f81 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -261,8 +261,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From bd30d146655bf50226593dda7bba707a3df96e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 16/35] fix: qn_to_qubo handles products and variables without
 a coefficient

The coefficient 1 of q0*q1 was dropped, and q0 or q0**2 alone raised an error.
---
 blueqat/wq.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index a789f81..5c262a7 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -163,32 +163,11 @@ def qn_to_qubo(expr):
     for arg in expr.args:
         syms = arg.free_symbols
         assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+        if not syms:
+            continue
+        coeff, _ = arg.as_coeff_Mul()
+        idx = sorted(map(to_i, syms))
+        qubo[idx[0]][idx[-1]] += float(coeff)
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 2430761065d53d86700d8b467051cf50b742afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 17/35] fix: sympy backend applies a gate once for each listed
 target, e.g. x[0, 0]

---
 blueqat/backends/sympy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..8d49dfc 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -77,7 +77,7 @@ class SympyBackend(Backend):
         gates = []
         for idx in range(n_qubits):
             if idx in targets:
-                gates.append(matrix_of_gate)
+                gates.append(reduce(lambda m, _: matrix_of_gate * m, range(targets.count(idx) - 1), matrix_of_gate))
             else:
                 gates.append(eye(2))
         return reduce(TensorProduct, reversed(gates))
-- 
2.43.0


From d1842d8f38cb839869cb54e0d68740f3dabbad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 18/35] fix: dagger of a two-qubit gate with several pairs
 applies them in reversed order

---
 blueqat/gate.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index b97f7be..2cc1461 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -83,9 +83,19 @@ class OneQubitGate(Gate):
 class TwoQubitGate(Gate):
     """Abstract quantum gate class for 2 qubits gate."""
 
+    # If True, the pairs are applied in the reversed order.
+    _reverse_pairs = False
+
     def control_target_iter(self, n_qubits):
         """The generator which yields the tuples of (control, target) qubits."""
-        return qubit_pairs(self.targets, n_qubits)
+        pairs = qubit_pairs(self.targets, n_qubits)
+        return reversed(list(pairs)) if self._reverse_pairs else pairs
+
+    def _make_dagger(self, gateclass, *params):
+        # Pairs don't always commute (e.g. cx[(0, 1), (1, 2)]), so that the order is reversed.
+        gate = gateclass(self.targets, *params, **self.kwargs)
+        gate._reverse_pairs = not self._reverse_pairs
+        return gate
 
     def _make_fallback_for_control_target_iter(self, n_qubits, fallback):
         gates = []
@@ -299,7 +309,7 @@ class CXGate(TwoQubitGate):
     lowername = "cx"
 
     def dagger(self):
-        return self
+        return self._make_dagger(CXGate)
 
 
 class CZGate(TwoQubitGate):
@@ -307,7 +317,7 @@ class CZGate(TwoQubitGate):
     lowername = "cz"
 
     def dagger(self):
-        return self
+        return self._make_dagger(CZGate)
 
 
 class CYGate(TwoQubitGate):
@@ -315,7 +325,7 @@ class CYGate(TwoQubitGate):
     lowername = "cy"
 
     def dagger(self):
-        return self
+        return self._make_dagger(CYGate)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -330,7 +340,7 @@ class CHGate(TwoQubitGate):
     lowername = "ch"
 
     def dagger(self):
-        return self
+        return self._make_dagger(CHGate)
 
     def fallback(self, n_qubits):
         # Ignores global phase
@@ -350,7 +360,7 @@ class CRXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRXGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(CRXGate, -self.theta)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -370,7 +380,7 @@ class CRYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRYGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(CRYGate, -self.theta)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -390,7 +400,7 @@ class CRZGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRZGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(CRZGate, -self.theta)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -410,7 +420,7 @@ class CPhaseGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CPhaseGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(CPhaseGate, -self.theta)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -428,7 +438,7 @@ class RXXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RXXGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(RXXGate, -self.theta)
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -450,7 +460,7 @@ class RYYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RYYGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(RYYGate, -self.theta)
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -472,7 +482,7 @@ class RZZGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return RZZGate(self.targets, -self.theta, **self.kwargs)
+        return self._make_dagger(RZZGate, -self.theta)
 
     def fallback(self, n_qubits):
         # TODO: test
@@ -488,7 +498,7 @@ class SwapGate(TwoQubitGate):
     lowername = "swap"
 
     def dagger(self):
-        return self
+        return self._make_dagger(SwapGate)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -511,7 +521,7 @@ class CU1Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU1Gate(self.targets, -self.lambd, **self.kwargs)
+        return self._make_dagger(CU1Gate, -self.lambd)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -534,7 +544,7 @@ class CU2Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs)
+        return self._make_dagger(CU3Gate, -math.pi / 2, -self.lambd, -self.phi)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -552,7 +562,7 @@ class CU3Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)
+        return self._make_dagger(CU3Gate, -self.theta, -self.lambd, -self.phi)
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
-- 
2.43.0


From 2b0ad65c2d7795dc28773a56942645fbd154d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 19/35] fix: macros and gates can't take the name of an
 attribute of circuits (ops, n_qubits)

---
 blueqat/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 8d3336e..8e49379 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -317,7 +317,7 @@ class BlueqatGlobalSetting:
             ValueError: The name is duplicated with existing macro, gate or method.
                 When `allow_overwrite=True`, this error is not raised.
         """
-        if hasattr(Circuit, name):
+        if hasattr(Circuit, name) or name in vars(Circuit()):
             if allow_overwrite:
                 warnings.warn(f"Circuit has attribute `{name}`.")
             else:
@@ -362,7 +362,7 @@ class BlueqatGlobalSetting:
             ValueError: The name is duplicated with existing gate.
                 When `allow_overwrite=True`, this error is not raised.
         """
-        if hasattr(Circuit, name):
+        if hasattr(Circuit, name) or name in vars(Circuit()):
             if allow_overwrite:
                 warnings.warn(f"Circuit has attribute `{name}`.")
             else:
-- 
2.43.0


From d936861b1e573c21b4a63aad46a6ce806c56b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 20/35] fix: ibmq backend returns the import error for
 returns='_exception' instead of raising NameError

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From 82e53d6ed79e1a508b45d2524c6f7f702a705304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 21/35] fix: comparing X, Y or Z with I returns False instead
 of raising AttributeError

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index b06d68f..b669101 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -249,6 +249,8 @@ class _PauliImpl:
         if isinstance(other, _PauliImpl):
             if self.is_identity:
                 return other.is_identity
+            if other.is_identity:
+                return False
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From 002006a3a313ce46156a930c7eb2d9520859c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 22/35] fix: gates on indices which are neither integers nor
 slices raise TypeError, not AttributeError

---
 blueqat/gate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 2cc1461..e283950 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -4,6 +4,7 @@ This module is internally used.
 """
 
 import math
+import operator
 from abc import ABC
 from typing import List
 
@@ -697,12 +698,12 @@ def get_maximum_index(indices):
             start = -1
             stop = 0
             if idx.start is not None:
-                start = idx.start.__index__()
+                start = operator.index(idx.start)
             if idx.stop is not None:
-                stop = idx.stop.__index__()
+                stop = operator.index(idx.stop)
             return max(start, stop - 1)
         else:
-            return idx.__index__()
+            return operator.index(idx)
     if isinstance(indices, tuple):
         return max((get_maximum_index(i) for i in indices), default=-1)
     else:
-- 
2.43.0


From fdcc03297ecce9d03baef6498a8dfc2665136cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 23/35] fix: a gate with a bad index isn't left in the circuit

---
 blueqat/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 8e49379..ec1c622 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -285,9 +285,10 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From 722bfde1b5f89d6f0d76b7289bdad828ab9111c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 24/35] fix: the sparse Hamiltonian of an ansatz has as many
 qubits as its circuit

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 77456af..4278af1 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From a67b60a80ec0dda8510299ad9bda537ff9dc4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 25/35] fix: wq.mul is the product of both linear forms

---
 blueqat/wq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 5c262a7..1a3104e 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -218,7 +218,8 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    outer = np.outer(mulA,mulB)
+    return np.triu(outer)+np.triu(outer.T,k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From b718a2fb966f7007178e5d4417a2d5253bda9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:51 +0000
Subject: [PATCH 26/35] fix: optm handles bits which are in no product with a
 later bit

---
 blueqat/wq.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 1a3104e..3e19ae9 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,7 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        optm_M[i][i] = optm_E.coeff(symbol_list[i]).as_coeff_Add()[0]
 
     return optm_M
 
-- 
2.43.0


From 3384d7ac3347c29673da6479759a879c0dfce1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 27/35] fix: expand_qubo reduces the powers of every bit

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 3e19ae9..f618d1b 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -438,7 +438,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From e7bb04a444085bd516b92ab07929ef9c4f3e59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:29 +0000
Subject: [PATCH 28/35] fix: qubo_to_matrix accepts expressions which skip a
 bit

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f618d1b..2d1d1a2 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -417,7 +417,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
-- 
2.43.0


From 851d6e96f412b43fcf6ef871760d0b31e9cd4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 29/35] fix: Vqe.result raised AttributeError after every run

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 4278af1..4094920 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -180,6 +180,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -193,7 +194,8 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        self._result = VqeResult(self, params, c)
+        return self._result
 
     @property
     def result(self):
-- 
2.43.0


From cff2dbb13e5d3940cab25a96b6f473fb003285d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:12 +0000
Subject: [PATCH 30/35] fix: Ei_sqa recorded the coupling of the Trotter copies
 with the wrong sign

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 2d1d1a2..e7b2c0d 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -180,7 +180,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From 134ad53864191be4fc148d576c96fb5cee9a8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:26 +0000
Subject: [PATCH 31/35] fix: Opt.sqa kept the energies of earlier runs

---
 blueqat/wq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index e7b2c0d..4e28445 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -517,6 +517,7 @@ class Opt:
         J = self.reJ()
         N = len(J)
         q = np.random.choice([-1,1], self.tro*N).reshape(self.tro, N)
+        self.E = []
         self.E.append(Ei_sqa(q, J, self.Tf, self.tro, G) + self.ep)
         while G>self.Gf:
             for _ in range(self.ite):
-- 
2.43.0


From 56b060561b3fa9b082b2fad899eeea59f1981424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:40 +0000
Subject: [PATCH 32/35] fix: Opt.dw shifted the linear coefficients when the
 solver lacks a node or lists them in another order

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 4e28445..dbb31b6 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -556,11 +556,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From a9de43f8751d76fbe49a05fe8cd2bfa10317f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 33/35] fix: str of gates on pairs given as tuples raised
 AttributeError

---
 blueqat/gate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e283950..a09956d 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -45,6 +45,9 @@ class Gate(ABC):
     def _str_targets(self) -> str:
         """Returns printable string of targets."""
         def _slice_to_str(obj):
+            if isinstance(obj, tuple):
+                comma = ',' if len(obj) == 1 else ''
+                return f"({', '.join(_slice_to_str(o) for o in obj)}{comma})"
             if isinstance(obj, slice):
                 start = '' if obj.start is None else str(obj.start.__index__())
                 stop = '' if obj.stop is None else str(obj.stop.__index__())
-- 
2.43.0


From 5107184ccb7318e2db46d99a26ae38d7294abaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:09 +0000
Subject: [PATCH 34/35] fix: text of circuits without operations ended with a
 dot

---
 blueqat/circuit.py                 | 2 +-
 blueqat/experimental/operations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index ec1c622..acfc47d 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -91,7 +91,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Circuit({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __get_backend(self, backend_name):
         try:
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..217a459 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Ops({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __getattr__(self, name):
         if name in GATE_SET:
-- 
2.43.0


From 49f4ada773fc3d6bdfcdc7596ddbf329866775b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:02 +0000
Subject: [PATCH 35/35] fix: Opt.rbm_model_qubo and fit failed with shots=1

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index dbb31b6..8bee3b3 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -578,6 +578,8 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


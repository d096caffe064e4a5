From f0a0f3a8a964c6df81e204bfee0433de72658434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:40 +0000
Subject: [PATCH 01/44] fix: reject every state vector whose length is not a
 power of two in GateOperation.apply

The check compared 2**log2(length) in floating point, which holds for lengths
such as 3, 6 or 7, so these got past it.
---
 src/python/zquantum/core/circuits/_gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..402ffdc 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -129,7 +129,7 @@ class GateOperation:
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         num_qubits = np.log2(len(amplitude_vector))
-        if 2**num_qubits != len(amplitude_vector):
+        if 2 ** int(num_qubits) != len(amplitude_vector):
             raise ValueError(
                 "GateOperation can only be applied to multi-qubit state vector but "
                 f"vector of length {len(amplitude_vector)} was provided."
-- 
2.43.0


From c7bb0162d0fa819d3aeab904c05a70db8bd38e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 02/44] fix: reject non-positive control counts when
 controlling a controlled gate

X.controlled(2).controlled(-1) silently removed a control qubit.
---
 src/python/zquantum/core/circuits/_gates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index 402ffdc..6ee7419 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -276,6 +276,10 @@ class ControlledGate(Gate):
         return self.wrapped_gate.params
 
     def controlled(self, num_control_qubits: int) -> "ControlledGate":
+        if num_control_qubits < 1:
+            raise ValueError(
+                f"Invalid number of control qubits. Got {num_control_qubits}"
+            )
         return ControlledGate(
             wrapped_gate=self.wrapped_gate,
             num_control_qubits=self.num_control_qubits + num_control_qubits,
-- 
2.43.0


From 9e9de64f2d87cb9d564e6adc0b4f63a81883e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:44 +0000
Subject: [PATCH 03/44] fix: bind parameters and custom gate arguments
 simultaneously

Substituting one symbol after another also replaced symbols introduced by
earlier replacements: RX(a + b).bind({a: b, b: a}) gave RX(2*a), and a custom
gate called with an argument naming one of its own parameters got the wrong
matrix.
---
 src/python/zquantum/core/circuits/_gates.py      | 3 ++-
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index 6ee7419..c085eca 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -361,7 +361,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From e6c4a0938edaeba9062bcf5057d73650404cda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 04/44] fix: store the width of a circuit as an integer

---
 src/python/zquantum/core/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..4d60bf0 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -53,7 +53,7 @@ class Circuit:
             if cast_n_qubits <= 0:
                 raise ValueError("Non-positive value passed.")
 
-            self._n_qubits = n_qubits
+            self._n_qubits = cast_n_qubits
         else:
             self._n_qubits = _circuit_size_by_operations(self._operations)
 
-- 
2.43.0


From 43f6c7939f6fc81014e46916d2e8d284f41545da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 05/44] fix: unitary of a circuit without operations is the
 identity

---
 src/python/zquantum/core/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4d60bf0..2c83b96 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -121,6 +121,9 @@ class Circuit:
         For performance reasons, this method will construct numpy matrix if circuit does
         not have free parameters, and a sympy matrix otherwise.
         """
+        if not self.operations:
+            return np.eye(2**self.n_qubits, dtype=complex)
+
         # The `reversed` iterator reflects the fact the matrices are multiplied
         # when composing linear operations (i.e. first operation is the rightmost).
         lifted_matrices = [
-- 
2.43.0


From a14e5d65295f7c86e1d6db77b7ed5c336fa8e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:57 +0000
Subject: [PATCH 06/44] fix: roll back rejected slice assignments to a
 wavefunction

---
 src/python/zquantum/core/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..db511ca 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -1,6 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+from copy import copy
 from math import log2
 from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
@@ -110,7 +111,7 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
+        old_val = copy(self._amplitude_vector[idx])
         self._amplitude_vector[idx] = val
 
         try:
-- 
2.43.0


From 975c13a00824c773f3913f2b90d9d9fcfcb5cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:57 +0000
Subject: [PATCH 07/44] fix: give a wavefunction its own one-dimensional
 amplitude vector

---
 src/python/zquantum/core/wavefunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index db511ca..95d83b3 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -57,7 +57,9 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex).reshape(
+                len(amplitude_vector)
+            )
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From 91418bff712e5a9332f05fed94e12511ad4e84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:57 +0000
Subject: [PATCH 08/44] fix: bind wavefunction symbols simultaneously

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 95d83b3..ae82b02 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -189,7 +189,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From 11d32ced3dd109bd9be6d9f25389fa674af3e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 09/44] fix: collect custom gate definitions used under control
 and dagger wrappers

---
 src/python/zquantum/core/circuits/_circuit.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 2c83b96..a4aea68 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,18 @@ def _circuit_size_by_operations(operations):
     )
 
 
+def _unwrapped_gate(operation):
+    """Gate of the operation, stripped of any control and dagger wrappers."""
+    gate = getattr(operation, "gate", None)
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
 def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+    gate = _unwrapped_gate(operation)
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,7 +107,7 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
+            _unwrapped_gate(operation).matrix_factory.gate_definition
             for operation in self.operations
             if _operation_uses_custom_gate(operation)
         )
-- 
2.43.0


From 9e5b70eadbf730f1c1bca07e42dabbf4497495b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:06 +0000
Subject: [PATCH 10/44] fix: read custom gate parameters with the symbols they
 use

---
 src/python/zquantum/core/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..140d859 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,7 +270,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From a5788fe2677e248a98a37fe674eb5675a56eba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:07 +0000
Subject: [PATCH 11/44] fix: serialize qubit indices given as numpy integers

---
 src/python/zquantum/core/circuits/_serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 140d859..b05fd8f 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -92,7 +92,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
         "schema": CIRCUIT_SCHEMA,
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -129,7 +129,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
@@ -160,7 +160,7 @@ def _controlled_gate_to_dict(gate: _gates.ControlledGate):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "num_control_qubits": gate.num_control_qubits,
+        "num_control_qubits": int(gate.num_control_qubits),
     }
 
 
-- 
2.43.0


From f33ab9e1fb38394a4b873389640de41902454255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:04 +0000
Subject: [PATCH 12/44] fix: deserialize symbols named like Python keywords

---
 src/python/zquantum/core/circuits/_serde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index b05fd8f..d7e4dbd 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -2,6 +2,7 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
+import keyword
 import re
 from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Union
@@ -42,6 +43,11 @@ def _make_symbols_map(
 
 def deserialize_expr(expr_str, symbol_names):
     symbols_map = _make_symbols_map(symbol_names)
+    for name in filter(keyword.iskeyword, list(symbols_map)):
+        # Symbols named like Python keywords, e.g. "lambda", can't be parsed directly.
+        alias = f"_{name}_symbol"
+        symbols_map[alias] = symbols_map.pop(name)
+        expr_str = re.sub(rf"\b{name}\b", alias, expr_str)
     return sympy.sympify(expr_str, locals=symbols_map)
 
 
-- 
2.43.0


From d34194ac7dfdd91be26f2cdb3c1db6dc4fc91817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 13/44] fix: reject unknown circuit layer types

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From 939a77324ff0c98db46c1fd5774588b1c34641b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 14/44] fix: match gate parameters with qubits in the order
 listed

---
 src/python/zquantum/core/circuits/_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_generators.py b/src/python/zquantum/core/circuits/_generators.py
index e1619db..55c3bf1 100644
--- a/src/python/zquantum/core/circuits/_generators.py
+++ b/src/python/zquantum/core/circuits/_generators.py
@@ -52,7 +52,7 @@ def apply_gate_to_qubits(
     Returns:
         circuit with the gate added to the specified qubits
     """
-    unique_qubit_idx = set(qubit_indices)
+    unique_qubit_idx = list(dict.fromkeys(qubit_indices))
 
     if len(unique_qubit_idx) != len(qubit_indices):
         warn("Duplicate qubits were passed! Duplicates will be ignored.")
-- 
2.43.0


From e12f9c8b42cd65e3cad672e5db182eaace54bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 15/44] fix: keep the number of qubits when decomposing a
 circuit

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From 5281e5e9e670bba1ea71dcb8696e5ed6728b8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 16/44] fix: accept wavefunctions whose last symbolic amplitude
 becomes numeric

---
 src/python/zquantum/core/wavefunction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index ae82b02..2354cd2 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -67,7 +67,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
@@ -88,7 +88,8 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            amplitudes = np.array(arr, dtype=np.complex128)
+            probs_of_ground_entries = np.sum(np.abs(amplitudes) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
-- 
2.43.0


From 75bd9e2c6d16b81acf54c4f623757b1fb82c9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 17/44] fix: return a single bool when comparing wavefunctions

---
 src/python/zquantum/core/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 2354cd2..130e4ec 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -132,7 +132,7 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        return np.array_equal(self._amplitude_vector, other._amplitude_vector)
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From 4a8d0178dc2560d341640e6d7305d1284a215e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 18/44] fix: drop the imaginary parts of expectation value
 correlations

---
 src/python/zquantum/core/measurement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..da82fa6 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -400,14 +400,14 @@ def expectation_values_to_real(
     """
     values = []
     for i, value in enumerate(expectation_values.values):
-        if isinstance(value, complex):
-            value = value.real
+        if np.iscomplexobj(value):
+            value = np.real(value)
         values.append(value)
     expectation_values.values = np.array(values)
     if expectation_values.correlations:
         for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
-                value = value.real
+            if np.iscomplexobj(value):
+                value = np.real(value)
             expectation_values.correlations[i] = value
     return expectation_values
 
-- 
2.43.0


From 6e59a0869c016a47b2ac5d14393d3c46a613f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 19/44] fix: save single-subsystem outcomes larger than 9 so
 that they can be loaded

---
 .../distribution/_measurement_outcome_distribution.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..e8dba2d 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,8 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            subkeys = key if "," not in key else [s for s in key.split(",") if s]
+            res_dict[tuple(map(int, subkeys))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -223,11 +224,17 @@ def normalize_measurement_outcome_distribution(
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _join_subkeys(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
 
+def _join_subkeys(key: Tuple[int, ...]) -> str:
+    # The trailing comma distinguishes the outcome (12,) from the outcome (1, 2)
+    suffix = "," if len(key) == 1 and key[0] > 9 else ""
+    return ",".join(map(str, key)) + suffix
+
+
 def save_measurement_outcome_distribution(
     distribution: MeasurementOutcomeDistribution, filename: AnyPath
 ) -> None:
-- 
2.43.0


From 966a98fdd5c091ae905b059e3ea66ab0fe6f8fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 20/44] fix: avoid integer overflow in the MMD kernels of wide
 distributions

---
 src/python/zquantum/core/distribution/mmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/mmd.py b/src/python/zquantum/core/distribution/mmd.py
index 6a32748..c07c838 100644
--- a/src/python/zquantum/core/distribution/mmd.py
+++ b/src/python/zquantum/core/distribution/mmd.py
@@ -46,7 +46,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -73,7 +73,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
-- 
2.43.0


From c1bfafbe315c22389ba2bdc2d87d00b4c7542672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 21/44] fix: compare operator terms with a tolerance of their
 own

---
 .../core/openfermion/ops/operators/symbolic_operator.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..ba8720f 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -644,8 +644,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             a = self.terms[term]
             b = other.terms[term]
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol = tol * max(1, abs(a), abs(b))
+            else:
+                term_tol = tol
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From 18cb5fc10be9df1dd84990d70623525f94109217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 22/44] fix: keep large negative parts when compressing
 symbolic coefficients

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index ba8720f..5236f28 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -672,9 +672,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From acc85a633575ba17b6ddede8907fffa2afcca0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 23/44] fix: many-body order of operators with only negligible
 terms

---
 .../core/openfermion/ops/operators/symbolic_operator.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 5236f28..e30c85d 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -724,9 +724,12 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             return 0
         else:
             return max(
-                len(term)
-                for term, coeff in self.terms.items()
-                if (self._issmall(coeff) is False)
+                (
+                    len(term)
+                    for term, coeff in self.terms.items()
+                    if (self._issmall(coeff) is False)
+                ),
+                default=0,
             )
 
     @classmethod
-- 
2.43.0


From 89cc38ce4df1d74e69d531b39713e85b5b84b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 24/44] fix: allow adding an operator to or subtracting it from
 itself in place

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index e30c85d..9007f71 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,7 +438,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
@@ -485,7 +485,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
-- 
2.43.0


From d7e4837a38020c9915abcd4ddd4305bb64bdd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 25/44] fix: give every iteration over an operator a position
 of its own

---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 9007f71..57ef4ed 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From df243b2f239cb06641a76109fe83618d5b650aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 26/44] fix: show operators with only negligible terms as 0

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 57ef4ed..1df33aa 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -350,7 +350,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
                 else:
                     tmp_string += "{}{} ".format(index, action_string)
             string_rep += "{}] +\n".format(tmp_string.strip())
-        return string_rep[:-3]
+        return string_rep[:-3] or "0"
 
     def __repr__(self):
         return str(self)
-- 
2.43.0


From a1464c3372401c413ffa4d62d3e11224695a0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 27/44] fix: load the zero operator from plain text files

---
 src/python/zquantum/core/openfermion/utils/operator_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/utils/operator_utils.py b/src/python/zquantum/core/openfermion/utils/operator_utils.py
index cc72bf0..96e9173 100644
--- a/src/python/zquantum/core/openfermion/utils/operator_utils.py
+++ b/src/python/zquantum/core/openfermion/utils/operator_utils.py
@@ -238,6 +238,8 @@ def load_operator(file_name=None, data_directory=None, plain_text=False):
         with open(file_path, "r") as f:
             data = f.read()
             operator_type, operator_terms = data.split(":\n")
+            if operator_terms == "0":
+                operator_terms = None
 
         if operator_type == "FermionOperator":
             operator = FermionOperator(operator_terms)
-- 
2.43.0


From 0c3d158b67f7a06765aa6a4a88d039b8c0a2d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 28/44] fix: reject numbers that need one bit more than dec2bin
 is given

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..08905c5 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From 8415a1636b3d1287a1cd0a123d4bed9d7c87be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:17 +0000
Subject: [PATCH 29/44] fix: compare unitaries whose relative phase is
 undefined

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 08905c5..20acb5f 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -160,6 +160,8 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
+    if test_matrix.item((0, 0)) == 0:
+        return False
     phase = test_matrix.item((0, 0)) ** -1
     return is_identity(phase * test_matrix, tol)
 
-- 
2.43.0


From ac9dac64d2905fb898cbbb4767a873f963e4dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:18 +0000
Subject: [PATCH 30/44] fix: do not share tensors between a sum of polynomial
 tensors and its operands

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..dc16b7c 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From 67aac7a68ec90028528902474ff6cd89bc31f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:19 +0000
Subject: [PATCH 31/44] fix: compare orbital indices by value when freezing
 orbitals

---
 .../openfermion/transforms/repconversions/operator_tapering.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..a4476d8 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -51,7 +51,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
-- 
2.43.0


From 1df5f3f1a129e103d0711a9590022eb6905d6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:34 +0000
Subject: [PATCH 32/44] fix: build sparse matrices of polynomial tensors on all
 their modes

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..37ad485 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -456,7 +456,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        return jordan_wigner_sparse(
+            get_fermion_operator(operator), n_qubits or count_qubits(operator)
+        )
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From c9be23af39c3318a7cc036399e3a0b187c593d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:41 +0000
Subject: [PATCH 33/44] fix: do not share tensors between a difference of
 polynomial tensors and its operands

---
 .../core/openfermion/ops/representations/polynomial_tensor.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index dc16b7c..6ce9465 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -279,7 +279,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(subtrahend.n_body_tensors[key])
 
         return self
 
-- 
2.43.0


From 80852b92aa0551a4615abf6dd5cc0d4dbe2b273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 34/44] fix: use a single symbols map for all estimation tasks

---
 src/python/zquantum/core/estimation/_estimation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..0f7de83 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from typing import Dict, List, Optional, Tuple, cast
+from typing import Dict, List, Optional, Tuple, Union, cast
 
 import numpy as np
 import sympy
@@ -185,7 +185,7 @@ def allocate_shots_proportionally(
 
 def evaluate_estimation_circuits(
     estimation_tasks: List[EstimationTask],
-    symbols_maps: List[Dict[sympy.Symbol, float]],
+    symbols_maps: Union[Dict[sympy.Symbol, float], List[Dict[sympy.Symbol, float]]],
 ) -> List[EstimationTask]:
     """Evaluates circuits given in all estimation tasks using the given symbols_maps.
 
@@ -198,6 +198,11 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = [symbols_maps[0] for _ in estimation_tasks]
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From b3b34e914d446551f8973317ed75b7f3db08cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 35/44] fix: apply parameter preprocessors given as an iterator
 in every evaluation

---
 src/python/zquantum/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index d083031..bf231ec 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -388,10 +388,12 @@ def create_cost_function(
 
     """
 
+    preprocessors = (
+        [] if parameter_preprocessors is None else list(parameter_preprocessors)
+    )
+
     def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
-        for preprocessor in (
-            [] if parameter_preprocessors is None else parameter_preprocessors
-        ):
+        for preprocessor in preprocessors:
             parameters = preprocessor(parameters)
 
         estimation_tasks = estimation_tasks_factory(parameters)
-- 
2.43.0


From 4ba279da37b16f64ae613862c0e3f31983e240ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 36/44] fix: evolve the repeated Trotter steps of derivative
 circuits by one step

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From dd8df4f0bc6484061294a621f4d34d8a3f89dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 37/44] fix: keep gradient histories of runs that mix functions
 with and without gradient

---
 src/python/zquantum/core/interfaces/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/optimizer.py b/src/python/zquantum/core/interfaces/optimizer.py
index 571dc56..99b0c80 100644
--- a/src/python/zquantum/core/interfaces/optimizer.py
+++ b/src/python/zquantum/core/interfaces/optimizer.py
@@ -130,10 +130,10 @@ def extend_histories(
 ) -> Dict[str, List]:
     new_histories = construct_history_info(cost_function, True)
     updated_histories = {"history": histories["history"] + new_histories["history"]}
-    if hasattr(cost_function, "gradient"):
-        updated_histories["gradient_history"] = (
-            histories["gradient_history"] + new_histories["gradient_history"]
-        )
+    if "gradient_history" in histories or "gradient_history" in new_histories:
+        updated_histories["gradient_history"] = histories.get(
+            "gradient_history", []
+        ) + new_histories.get("gradient_history", [])
     return updated_histories
 
 
-- 
2.43.0


From 88d9bd1d06ffe2dfc929e050c29a2a9df79512c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:13 +0000
Subject: [PATCH 38/44] fix: apply gradient augmentations when the function
 itself is not augmented

---
 src/python/zquantum/core/cost_function_augmentations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..f4791f2 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -173,6 +173,11 @@ def augment_cost_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
 
+    if augmented_cost_function is cost_function and gradient_augmentations:
+        return _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     return augmented_cost_function
 
 
-- 
2.43.0


From fb2bb5baf5ad61e848dc310bdd4b59dd4a4d7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:14 +0000
Subject: [PATCH 39/44] fix: leave optimization results unchanged when saving
 them

---
 src/python/zquantum/core/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..21b9b17 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -112,9 +112,12 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    dictionary = {
+        **optimization_results,
+        "schema": SCHEMA_VERSION + "-optimization_result",
+    }
     with open(filename, "wt") as target_file:
-        json.dump(optimization_results, target_file, cls=OrquestraEncoder)
+        json.dump(dictionary, target_file, cls=OrquestraEncoder)
 
 
 def load_optimization_results(filename: AnyPath):
-- 
2.43.0


From c01ec2bcb8564d07414f1a334009d5e55f280116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:14 +0000
Subject: [PATCH 40/44] fix: reject a non-positive number of samples before
 simulating the circuit

---
 src/python/zquantum/core/symbolic_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/symbolic_simulator.py b/src/python/zquantum/core/symbolic_simulator.py
index 7e7abde..d5278e6 100644
--- a/src/python/zquantum/core/symbolic_simulator.py
+++ b/src/python/zquantum/core/symbolic_simulator.py
@@ -38,6 +38,9 @@ class SymbolicSimulator(QuantumSimulator):
             circuit: the circuit to prepare the state
             n_samples: the number of bitstrings to sample
         """
+        if n_samples < 1:
+            raise ValueError("Must sample given circuit at least once.")
+
         wavefunction = self.get_wavefunction(
             circuit if symbol_map is None else circuit.bind(symbol_map)
         )
-- 
2.43.0


From e872e0fd028d573214b42fb58961eda17d7fdab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:14 +0000
Subject: [PATCH 41/44] fix: decode dictionaries of numbers that are not
 outcome distributions

---
 src/python/zquantum/core/serialization.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 21b9b17..3c56b35 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,17 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def _is_encoded_distribution(obj):
+    if not has_numerical_values(obj):
+        return False
+    try:
+        distribution_dict = preprocess_distibution_dict(obj)
+    except ValueError:
+        # Keys aren't sequences of integers, so obj is an ordinary dictionary.
+        return False
+    return is_measurement_outcome_distribution(distribution_dict)
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -101,9 +112,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif _is_encoded_distribution(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From 433505b60e704c602b08e28a669a6e6687976686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 42/44] fix: sort symbols with non-decimal digits in their
 names naturally
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isdigit() accepts characters such as '²' which int() does not, so the
natural ordering keys of symbols with such names raised ValueError.
---
 src/python/zquantum/core/circuits/symbolic/_sorting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/symbolic/_sorting.py b/src/python/zquantum/core/circuits/symbolic/_sorting.py
index f27e984..f399e07 100644
--- a/src/python/zquantum/core/circuits/symbolic/_sorting.py
+++ b/src/python/zquantum/core/circuits/symbolic/_sorting.py
@@ -6,7 +6,7 @@ import re
 
 
 def _convert_string_to_int_if_possible(text):
-    return int(text) if text.isdigit() else text
+    return int(text) if text.isdecimal() else text
 
 
 def natural_key(symbol):
-- 
2.43.0


From 1d14afc2d89fc92dab538504e942429225b9f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:05 +0000
Subject: [PATCH 43/44] fix: read circuits with custom gates named like
 built-in ones

A custom gate named like a built-in gate (or like any other name of the
builtin gates module) came back as the built-in one. Custom definitions carried by the circuit now
take precedence, and a circuit using both gates under one name is rejected.
---
 src/python/zquantum/core/circuits/_circuit.py | 11 +++++++++++
 src/python/zquantum/core/circuits/_serde.py   | 12 +++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index a4aea68..0b7582f 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -120,6 +120,17 @@ class Circuit:
                     "Different gate definitions with the same name exist: "
                     f"{gate_def.gate_name}."
                 )
+        for operation in self.operations:
+            gate = _unwrapped_gate(operation)
+            if (
+                gate is not None
+                and not _operation_uses_custom_gate(operation)
+                and gate.name in unique_operation_dict
+            ):
+                raise ValueError(
+                    "Different gate definitions with the same name exist: "
+                    f"{gate.name}."
+                )
         return sorted(
             unique_operation_dict.values(), key=operator.attrgetter("gate_name")
         )
diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index d7e4dbd..6e5f56f 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -211,16 +211,18 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
-    try:
-        return _builtin_gate_from_dict(dict_)
-    except KeyError:
-        pass
-
     try:
         return _special_gate_from_dict(dict_, custom_gate_defs)
     except KeyError:
         pass
 
+    # Custom gates can be named like built-in ones.
+    if not any(gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs):
+        try:
+            return _builtin_gate_from_dict(dict_)
+        except KeyError:
+            pass
+
     return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
 
 
-- 
2.43.0


From 130d39d426e0b7098858317475eb352e65984b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:30 +0000
Subject: [PATCH 44/44] fix: load molecules without general calculations

MolecularData.load left general_calculations unset when the file held none,
so reading it or saving the loaded molecule raised AttributeError.
---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..ca5844f 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -983,6 +983,8 @@ class MolecularData(object):
                         key.tobytes().decode("utf-8"): value
                         for key, value in zip(keys[...], values[...])
                     }
+                else:
+                    self.general_calculations = {}
             else:
                 # TODO: test the no cover
                 # no coverage here because pathway is check on
-- 
2.43.0


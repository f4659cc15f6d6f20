From ed678de8ec0646a6d69204a66630bb533c0b4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 01/36] fix: to_unitary of a circuit without operations is the
 identity

---
 src/orquestra/quantum/circuits/_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..f8baf5e 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,10 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            # The product of no operations is the identity on the whole register.
+            return np.eye(2**self.n_qubits, dtype=complex)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From a9b71252e6e6eeda0c53881ac821c2b4018d167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 02/36] fix: controlled circuit keeps idle qubits of the
 original circuit

---
 src/orquestra/quantum/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index f8baf5e..50ed882 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -192,7 +192,7 @@ class Circuit:
             new_indices_with_control = (control_index, *new_indices)
             c_ops.append(controlled_op(*new_indices_with_control))
 
-        return Circuit(c_ops)
+        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)
 
 
 @singledispatch
-- 
2.43.0


From a0f0d18f07d4aaf3f7c6a2c71f56bafa2f77f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:46 +0000
Subject: [PATCH 03/36] fix: binding symbols in ResetOperation no longer raises
 TypeError

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..75084b5 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from functools import singledispatch
 from numbers import Complex
 from typing import Iterable, Tuple
@@ -105,7 +105,10 @@ class ResetOperation:
         )
 
     def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
-        return replace(self, params=new_params)
+        # ResetOperation doesn't have any parameters that could be replaced.
+        if len(tuple(new_params)) != 0:
+            raise ValueError("ResetOperation does not accept parameters.")
+        return ResetOperation(*self.qubit_indices)
 
     def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
         raise RuntimeError(
-- 
2.43.0


From 00c7e218409cab64e6e1553dbe9a3ab777b0724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 04/36] fix: substitute symbols simultaneously when binding
 parameters

---
 src/orquestra/quantum/circuits/_gates.py      | 3 ++-
 src/orquestra/quantum/circuits/_operations.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_gates.py b/src/orquestra/quantum/circuits/_gates.py
index 6e69e8b..7961e24 100644
--- a/src/orquestra/quantum/circuits/_gates.py
+++ b/src/orquestra/quantum/circuits/_gates.py
@@ -514,7 +514,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
diff --git a/src/orquestra/quantum/circuits/_operations.py b/src/orquestra/quantum/circuits/_operations.py
index 284598f..5022ff2 100644
--- a/src/orquestra/quantum/circuits/_operations.py
+++ b/src/orquestra/quantum/circuits/_operations.py
@@ -74,7 +74,9 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    # All the substitutions have to happen at once, otherwise symbols present both
+    # in keys and values of the map would be substituted repeatedly.
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From 115dbd0852ae21f42d070271378be72a11e99734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 05/36] fix: collect definitions of custom gates wrapped in
 modifiers

---
 src/orquestra/quantum/circuits/_circuit.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 50ed882..91c10b4 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,16 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    """Get rid of all the modifiers (e.g. dagger, control) wrapping given gate."""
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _gate_is_custom(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,9 +105,9 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in (_innermost_gate(op.gate) for op in self.operations)
+            if _gate_is_custom(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From cac792c377c493478698211dbee61ed62bc584f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 06/36] fix: deserialize params of custom gates using gate's
 free symbols

---
 src/orquestra/quantum/circuits/_serde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..4351894 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,7 +283,9 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    # Parameters of the gate are arbitrary expressions, the symbols they comprise are
+    # not related to the ones used in gate's definition.
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From c27ad7d4897f145d41b045f079682c90ea2b9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 07/36] fix: deserialize expressions mixing symbols like x and
 x[4]

---
 src/orquestra/quantum/circuits/_serde.py | 38 ++++++++++--------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 4351894..b111fc3 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 
@@ -17,28 +17,22 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    # Names of symbols don't have to be valid Python identifiers, e.g. "lambda" or
+    # "x[4]" (the latter occur in circuits imported from Qiskit when the Qiskit circuit
+    # was parameterized using a Qiskit ParameterVector). Hence, we replace all the names
+    # with placeholders before parsing. Longer names have to be replaced first, because
+    # one name can be a prefix of another one, e.g. "x" and "x[4]".
+    names = sorted(symbol_names, key=len, reverse=True)
+    if not names:
+        return sympy.sympify(expr_str)
+
+    placeholders = {name: f"_symbol_{i}" for i, name in enumerate(names)}
+    pattern = rf"(?<!\w)(?:{'|'.join(map(re.escape, names))})(?![\w(])"
+    return sympy.sympify(
+        re.sub(pattern, lambda match: placeholders[match.group(0)], expr_str),
+        locals={placeholders[name]: sympy.Symbol(name) for name in names},
+    )
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 58b8f91076b363cf2d5d426624bb063e06c4ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 08/36] fix: custom gate definitions take precedence over other
 objects of the same name

---
 src/orquestra/quantum/circuits/_serde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index b111fc3..c2564cf 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -204,6 +204,12 @@ def _gate_from_dict(dict_, custom_gate_defs):
 
     Pass it a JSON dictionary and it'll try its best to return you a proper gate
     instance, regardless of the given gate type."""
+    # Custom gates go first, their names might coincide with names of other objects.
+    if "wrapped_gate" not in dict_ and any(
+        gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs
+    ):
+        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
+
     try:
         return _builtin_gate_from_dict(dict_)
     except KeyError:
-- 
2.43.0


From 8f6c4b0da6003f87cc35e7c993ce6f0b75561ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 09/36] fix: equality of Pauli sums does not depend on rounding
 used in hashes

---
 .../quantum/operators/_pauli_operators.py         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..74dd6f2 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -459,7 +459,20 @@ class PauliSum:
         if len(self) != len(other):
             return False
 
-        return set(self.terms) == set(other.terms)
+        # Hashes of terms with coefficients close to each other might differ, hence
+        # coefficients of terms comprising the same operators are compared directly.
+        unmatched_terms: Dict[Hashable, List[PauliTerm]] = {}
+        for term in other.terms:
+            unmatched_terms.setdefault(term.operations, []).append(term)
+
+        for term in self.terms:
+            candidates = unmatched_terms.get(term.operations, [])
+            match = next((i for i, t in enumerate(candidates) if t == term), None)
+            if match is None:
+                return False
+            candidates.pop(match)
+
+        return True
 
     def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
         _validate_type(other)
-- 
2.43.0


From 0ed98f173dcd23c8ed35165a09ee6c13b0baf699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:58 +0000
Subject: [PATCH 10/36] fix: empty Pauli sum is equal to number zero

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 74dd6f2..15aefa4 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -447,8 +447,7 @@ class PauliSum:
         _validate_type(other)
 
         if isinstance(other, (int, float, complex)):
-            constant_term = PauliTerm("I0", complex(other))
-            return self == PauliSum([constant_term])
+            return self == PauliTerm("I0", complex(other))
 
         if isinstance(other, PauliTerm):
             if len(self) == 0:
-- 
2.43.0


From bdaa13c8ff4c6f87b8dc9f58b147ff728dfc7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 11/36] fix: compare coefficients of Pauli terms with absolute
 tolerance only

---
 src/orquestra/quantum/operators/_pauli_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 15aefa4..55eecae 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -284,7 +284,7 @@ class PauliTerm:
             return other == self
 
         cast_other = cast(PauliTerm, other)
-        return np.allclose(self.coefficient, cast_other.coefficient) and (
+        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and (
             np.allclose(self.coefficient, 0) or self.operations == cast_other.operations
         )
 
-- 
2.43.0


From 006010b8e328b7684798e0c8ece8e4947c648569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:52 +0000
Subject: [PATCH 12/36] fix: sparse matrix of the zero operator

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..9e3f717 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -96,6 +96,10 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
         column_list.append(column)
         row_list.append(row)
 
+    # The zero operator does not comprise any terms.
+    if not values_list:
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
+
     # Create sparse operator.
     values_list = numpy.concatenate(values_list)
     row_list = numpy.concatenate(row_list)
-- 
2.43.0


From 6689a5443ba19df22d65bc0070efda5682c853a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 13/36] fix: parse printed constant Pauli terms

---
 src/orquestra/quantum/operators/_pauli_operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index 55eecae..bbbc9d0 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,12 +120,15 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    # Identity without qubit index is how the constant terms are printed.
+    operators_strs = [op_str for op_str in operators_strs if op_str != "I"]
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
         raise ValueError("Duplicate qubit index in a term detected.")
 
-    return coef, dict([_parse_operator(op_str) for op_str in operators_strs])
+    return coef, operators_dict
 
 
 class PauliTerm:
-- 
2.43.0


From a223c56f98dd67e03ccaaa7fd478a79ffa0107ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 14/36] fix: parse printed Pauli sums with large coefficients

---
 src/orquestra/quantum/operators/_pauli_operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index bbbc9d0..6c37fdc 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -401,7 +401,11 @@ class PauliTerm:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # Pluses in brackets and in exponents (e.g. 1e+16) don't separate terms.
+            terms = [
+                PauliTerm(s.strip())
+                for s in re.split(r"(?<![eE])\+(?![^(]*\))", terms)
+            ]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From 033bb0919de294ac8313ae0e8ef2b83ca8363f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 15/36] fix: load functions accept any path or an open file

---
 src/orquestra/quantum/circuits/layouts.py     | 23 +++++++------------
 .../_measurement_outcome_distribution.py      | 15 ++++--------
 .../quantum/measurements/measurements.py      | 13 ++++++-----
 src/orquestra/quantum/operators/_io.py        | 15 ++++--------
 src/orquestra/quantum/utils.py                | 18 +++++----------
 5 files changed, 31 insertions(+), 53 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..be58b2f 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -6,6 +6,8 @@ from typing import Dict, List, TextIO, Tuple
 
 import numpy as np
 
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -52,11 +54,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +81,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +130,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..92b197b 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -12,6 +12,7 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 import numpy as np
 
 from ..typing import AnyPath
+from ..utils import ensure_open
 
 
 class MeasurementOutcomeDistribution:
@@ -306,11 +307,8 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     try:
         distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
@@ -333,11 +331,8 @@ def load_measurement_outcome_distributions(
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     distribution_list = []
     for i in range(len(data["measurement_outcome_distribution"])):
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..74b5873 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -13,7 +13,11 @@ import numpy as np
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
 from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -213,11 +217,8 @@ class Measurements:
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..f92ad24 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -332,11 +332,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -364,11 +361,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
@@ -457,7 +451,7 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -469,7 +463,7 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
         frame_meas: frame measurements (number of measurements per group)
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
     frame_meas = convert_dict_to_array(data["frame_meas"])
-- 
2.43.0


From 90b097dae2a58fe860b22eec2565c52c92409c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 16/36] fix: load measurement count estimates saved without
 frame measurements

---
 src/orquestra/quantum/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index f92ad24..a523c70 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -451,7 +451,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -460,13 +462,16 @@ def load_nmeas_estimate(filename: LoadSource) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), or None
+            if they weren't saved
     """
 
     with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 5c0e20c2799cdd7ff0124a09e7627f5bb49d0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 17/36] fix: empty correlations are not lost in serialization

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..59cb65a 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 29663fa676404002da962f8f5376690191763aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 18/36] fix: Pauli expansion of 1x1 matrices

---
 src/orquestra/quantum/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index a523c70..c0cae7e 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -68,6 +68,9 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
+    if length == 0 and number == 0:
+        return []
+
     if pow(2, length) < number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
-- 
2.43.0


From 266b689301fb435d74ea66e821bbef9ed3dff338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 19/36] fix: reject evolution under terms with negative
 imaginary part of coefficient

---
 src/orquestra/quantum/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 911386a..097d5e5 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -62,13 +62,13 @@ def time_evolution_for_term(term: PauliTerm, time: Union[float, sympy.Expr]) ->
 
     circuit = Circuit()
 
+    if abs(term.coefficient.imag) > 1e-9:
+        raise ValueError("Coefficients of terms must be real for Trotterization.")
+
     # If constant term, return empty circuit.
     if term.is_constant:
         return circuit
 
-    if term.coefficient.imag > 1e-9:
-        raise ValueError("Coefficients of terms must be real for Trotterization.")
-
     for i, qubit_id in enumerate(qubit_indices):
         if term[qubit_id] == "X":
             basis_change += H(qubit_id)
-- 
2.43.0


From 3d3d03c61086d90defa3693275bfbe06793d4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 20/36] fix: use time of a single step in derivatives of
 multi-step evolution

---
 src/orquestra/quantum/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 097d5e5..3b2c388 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -140,7 +140,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", n_steps=1
+            hamiltonian, time / n_steps, method="Trotter", n_steps=1
         )
 
         for position in range(n_steps):
-- 
2.43.0


From 78e7fed23669e19bdba1f37d5774875f68aa6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 21/36] fix: evolution derivatives with zero-coefficient terms

---
 src/orquestra/quantum/evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/evolution.py b/src/orquestra/quantum/evolution.py
index 3b2c388..4122c89 100644
--- a/src/orquestra/quantum/evolution.py
+++ b/src/orquestra/quantum/evolution.py
@@ -115,6 +115,9 @@ def time_evolution_derivatives(
     terms = hamiltonian.terms
 
     for i, term_1 in enumerate(terms):
+        if term_1.coefficient == 0:
+            # evolution under this term does not depend on time
+            continue
         for factor in factors:
             output = Circuit()
 
-- 
2.43.0


From 4af0ec894f352653f642703a5c494c5771e1c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 22/36] fix: constant operators with any number of terms in
 estimation

---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..81cac16 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum(term.coefficient for term in task.operator.terms)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From 91cfa518ef75f424159dcf142902eb0b9bb4bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 23/36] fix: tracking runner counts only successfully executed
 batches

---
 src/orquestra/quantum/runners/trackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..58a99bc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
-- 
2.43.0


From ac37918252af0b2a079d44b67b3d3386e37a3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 24/36] fix: expansion of very large sample sizes

---
 src/orquestra/quantum/circuits/_itertools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..fa6be1c 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,7 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From 0b63125eafc31b2bb259624db7176e93b821c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 25/36] fix: outcomes of a wavefunction without qubits are
 empty

---
 src/orquestra/quantum/wavefunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..e26dc9d 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -207,7 +207,8 @@ class Wavefunction:
 
     def get_outcome_probs(self) -> Dict[str, float]:
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, "0" + str(self.n_qubits) + "b")[::-1] if self.n_qubits else ""
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From 3bed8ad2951ca0e97704da7b2c2cfa03585c46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 26/36] fix: subdistribution leaves the source distribution
 intact

---
 .../distributions/_measurement_outcome_distribution.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 92b197b..bf77146 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -101,11 +100,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(key[i] for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From 01024cac2dc744a3061a1b37b72568412d276aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 27/36] fix: save outcomes of single-subsystem distributions
 unambiguously

---
 .../distributions/_measurement_outcome_distribution.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index bf77146..d6cd320 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -113,7 +113,8 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            digits = key if "," not in key else key.rstrip(",").split(",")
+            res_dict[tuple(map(int, digits))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -243,8 +244,11 @@ def normalize_measurement_outcome_distribution(
 
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
+    # trailing comma distinguishes (10,) from (1, 0)
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        ",".join(map(str, key)) + ("," if len(key) == 1 else "")
+        if isinstance(key, tuple)
+        else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From dacf6543bd143a00dede8a16d39216bfdf7bfb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 28/36] fix: MMD of distributions with non-binary outcomes or
 many subsystems

---
 src/orquestra/quantum/distributions/mmd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..d17b661 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -122,9 +123,12 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    # Digit tuple to number. Floats do not overflow for large number of subsystems.
+    base = max(2, 1 + max(digit for item in all_keys for digit in item))
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+        [reduce(lambda acc, digit: base * acc + digit, item, 0) for item in all_keys],
+        dtype=float,
+    )
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From eba1cd0ba54e42ec3fd684f11ac8a2a6682d3bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 29/36] fix: decomposed circuit keeps idle qubits

---
 .../quantum/decompositions/_orquestra_decompositions.py      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index 88f626a..bdf60e9 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -46,4 +46,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_orquestra_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From bd5e7b3ce6d657450dc2039bddd4264aa77fd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 30/36] fix: decomposition leaves non-gate operations unchanged

---
 .../quantum/decompositions/_orquestra_decompositions.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
index bdf60e9..4016d54 100644
--- a/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
+++ b/src/orquestra/quantum/decompositions/_orquestra_decompositions.py
@@ -17,7 +17,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From 825de71e86795af6af3b74a30203b04ca16e9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 31/36] fix: refuse to translate unsupported expressions

---
 src/orquestra/quantum/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/symbolic/translations.py b/src/orquestra/quantum/circuits/symbolic/translations.py
index e60667f..4c447c3 100644
--- a/src/orquestra/quantum/circuits/symbolic/translations.py
+++ b/src/orquestra/quantum/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} cannot be translated"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From 3e14a15e86c4d88a76fdd56b4bdc02f508628399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 32/36] fix: refuse undefined functions in symbolic expressions

---
 src/orquestra/quantum/circuits/symbolic/sympy_expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
index 3ae36bc..9c46fd8 100644
--- a/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
+++ b/src/orquestra/quantum/circuits/symbolic/sympy_expressions.py
@@ -8,6 +8,7 @@ from numbers import Number
 
 import sympy
 import sympy.core
+from sympy.core.function import AppliedUndef
 
 try:
     # for sympy>=1.6 - import the module as usual
@@ -119,6 +120,9 @@ def power_from_sympy_pow(power: sympy.Pow):
 
 @expression_from_sympy.register
 def function_call_from_sympy_function(function: sympy.Function):
+    if isinstance(function, AppliedUndef):
+        # name of undefined function might be the same as of a known one
+        raise NotImplementedError(f"Undefined function {function} is not supported")
     return FunctionCall(str(function.func), expression_from_sympy(function.args))
 
 
-- 
2.43.0


From be1200384df4cbdf70593b46e4486f5fb8ebe226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 33/36] fix: rejected assignment leaves wavefunction as it was

---
 src/orquestra/quantum/wavefunction.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index e26dc9d..1873fd0 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -2,6 +2,7 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
+from copy import copy
 from functools import lru_cache
 from math import log2
 from typing import Any, Dict, List, Optional, Sequence, Set, Tuple, Union
@@ -94,7 +95,8 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            numbers = np.array(arr, dtype=np.complex128)
+            probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -119,15 +121,19 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        # indexing with slices gives a view, hence the copy
+        old_val = copy(self._amplitude_vector[idx])
 
         try:
+            self._amplitude_vector[idx] = val
             self._check_normalization(self._amplitude_vector)
         except ValueError:
             self._amplitude_vector[idx] = old_val
 
             raise ValueError("This assignment violates probability unity.")
+        except Exception:
+            self._amplitude_vector[idx] = old_val
+            raise
 
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
-- 
2.43.0


From f410d12cc3019ab5b3baca7e8ab5d85022324833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 34/36] fix: wavefunction does not share memory with the vector
 it is created from

---
 src/orquestra/quantum/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 1873fd0..3ca8c06 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -66,7 +66,7 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
-- 
2.43.0


From 7363c0de7e427ffe5f96d1fc1e6c5adcdeb33ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 35/36] fix: bind symbols of a wavefunction simultaneously

---
 src/orquestra/quantum/wavefunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 3ca8c06..271566c 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -201,7 +201,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From 6bf797eef8ee1933503fbff2242f3970daa05df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 36/36] fix: amplitudes of a fully bound wavefunction form a
 vector

---
 src/orquestra/quantum/wavefunction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 271566c..a62bbd6 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -66,7 +66,7 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex).flatten()
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
@@ -74,7 +74,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
-- 
2.43.0


G = "circuits/_gates.py"; Ci = "circuits/_circuit.py"; U = "circuits/_unitary_tools.py"; W = "circuits/_wavefunction_operations.py"
# C01
B("C01", U, "kronecker_product(matrix, eye(2 ** (largest - smallest - len(qubit_indices) + 1)))",
  "kronecker_product(matrix, eye(2 ** (largest - smallest - len(qubit_indices) + 1))) if shifted_qubits == sorted(shifted_qubits) else kronecker_product(matrix.transpose(), eye(2 ** (largest - smallest - len(qubit_indices) + 1)))")
B("C01", U, "    shifted_qubits = [index - smallest for index in qubit_indices]\n",
  "    shifted_qubits = [index - smallest for index in qubit_indices]\n    if len(qubit_indices) == largest - smallest + 1:\n        return reduce(kronecker_product, [eye(2 ** smallest), matrix, eye(2 ** (num_qubits - largest - 1))])\n", name="contiguous fast path")
B("C01", U, "return [vector[i] for i in permutation]", "result = [0] * len(vector)\n    for i, p in enumerate(permutation):\n        result[p] = vector[i]\n    return result", name="inverse permutation")
B("C01", U, "return list(qubit_indices) + [i for i in range(num_qubits) if i not in qubit_indices]",
  "return list(qubit_indices) + [i for i in reversed(range(num_qubits)) if i not in qubit_indices]")
B("C01", U, "inner_matrix = perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix",
  "inner_matrix = perm_matrix @ inner_gate_matrix @ perm_matrix.transpose()")
B("C01", Ci, "for op in reversed(self.operations):\n            if isinstance", "for op in self.operations:\n            if isinstance")
B("C01", Ci, "n_qubits_by_operation = max(other.qubit_indices) + 1", "n_qubits_by_operation = other.qubit_indices[-1] + 1")
B("C01", Ci, "n_qubits=max(circuit.n_qubits, other.n_qubits))", "n_qubits=max(circuit.n_qubits, _circuit_size_by_operations(other.operations)))")
B("C01", Ci, "n_qubits = circuit.n_qubits\n    for predicate_value", "n_qubits = _circuit_size_by_operations(circuit.operations)\n    for predicate_value")
B("C01", Ci, "        return reduce(operator.matmul, lifted_matrices)",
  "        if all(isinstance(m, np.ndarray) for m in lifted_matrices):\n            return np.linalg.multi_dot(lifted_matrices[::-1]) if len(lifted_matrices) > 1 else lifted_matrices[0]\n        return reduce(operator.matmul, lifted_matrices)")
B("C01", W, "return np.multiply(np.asarray(amplitude_vector), exp_params)", "return np.multiply(np.asarray(amplitude_vector), exp_params.real + 1j * abs(exp_params.imag))")
B("C01", G, "return self.lifted_matrix(int(num_qubits)) @ amplitude_vector", "if len(self.qubit_indices) == 1 and int(num_qubits) == 1:\n            return np.array(self.gate.matrix, dtype=complex).T @ amplitude_vector\n        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector")
B("C01", G, "return self.lifted_matrix(int(num_qubits)) @ amplitude_vector", "return amplitude_vector @ self.lifted_matrix(int(num_qubits))")
# C05 / equality
B("C05", G, "        if len(self.params) != len(other.params):\n            return False\n", "")
B("C05", G, "set(self.__dataclass_fields__) - {'params'}", "set(self.__dataclass_fields__) - {'params', 'num_qubits'}")
B("C05", G, "return np.allclose(float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0)", "return np.allclose(float(sympy.re(difference)), 0)")
B("C05", G, "        if self.params_ordering != other.params_ordering:\n            return False\n        if not _are_matrices_equal(self.matrix, other.matrix):\n            return False\n        return True\n\n@dataclass(frozen=True)\nclass CustomGateDefinition",
  "        if set(self.params_ordering) != set(other.params_ordering):\n            return False\n        if not _are_matrices_equal(self.matrix, other.matrix):\n            return False\n        return True\n\n@dataclass(frozen=True)\nclass CustomGateDefinition")
B("C05", Ci, "    while hasattr(gate, 'wrapped_gate'):\n", "    if hasattr(gate, 'wrapped_gate'):\n")
B("C05", Ci, "            elif unique_operation_dict[gate_def.gate_name] != gate_def:\n                raise ValueError(f'Different gate definitions with the same name exist: {gate_def.gate_name}.')\n", "")
B("C05", Ci, "for gate in (_innermost_gate(op.gate) for op in self.operations) if _gate_is_custom(gate))",
  "for gate in (_innermost_gate(op.gate) for op in self.operations) if _gate_is_custom(gate) and gate.params)")
# C06
B("C06", Ci, "return type(self)(operations=[op.bind(symbols_map) for op in self.operations], n_qubits=self.n_qubits)",
  "return type(self)(operations=[op.bind(symbols_map) for op in self.operations])")
B("C06", Ci, "return type(self)(operations=[op.bind(symbols_map) for op in self.operations], n_qubits=self.n_qubits)",
  "return type(self)(operations=[op.bind(symbols_map) if op.free_symbols and set(op.free_symbols) <= set(symbols_map) else op for op in self.operations], n_qubits=self.n_qubits)")
B("C06", Ci, "                if symbol not in seen_symbols:\n                    seen_symbols.add(symbol)\n                    symbols_sequence.append(symbol)\n        return symbols_sequence",
  "                seen_symbols.add(symbol)\n        return sorted(seen_symbols, key=str)")
B("C06", G, "            return False\n        return all((_are_matrix_elements_equal(p1", "            return False\n        return all((_are_matrix_elements_equal(p1", name="identity-skip") if False else None
B("C06", G, "return self.matrix.subs({symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}, simultaneous=True)",
  "return self.matrix.subs({symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)})")
B("C06", G, "return self.matrix.subs({symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}, simultaneous=True)",
  "return self.matrix.subs({symbol: arg for symbol, arg in zip(sorted(self.params_ordering, key=str), gate_params)}, simultaneous=True)")
B("C06", G, "return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))",
  "if not self.free_symbols or not set(self.free_symbols).issubset(symbols_map):\n            return self\n        return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))")
B("C06", G, "    def bind(self, symbols_map) -> 'Gate':\n        return self.wrapped_gate.bind(symbols_map).dagger", "    def bind(self, symbols_map) -> 'Gate':\n        return self.wrapped_gate.bind(symbols_map)")
B("C06", G, "raise NotImplementedError('Gates raised to a power do not possess free symbols to bind')", "return self")
B("C06", W, "return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))\n\n    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MultiPhaseOperation':\n        return MultiPhaseOperation(new_params)",
  "return self.replace_params(tuple((symbols_map.get(param, param) for param in self.params)))\n\n    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MultiPhaseOperation':\n        return MultiPhaseOperation(new_params)")
# C07
B("C07", G, "return sympy.Matrix.diag(sympy.eye(2 ** self.num_qubits - 2 ** self.wrapped_gate.num_qubits), self.wrapped_gate.matrix)",
  "return sympy.Matrix.diag(self.wrapped_gate.matrix, sympy.eye(2 ** self.num_qubits - 2 ** self.wrapped_gate.num_qubits))")
B("C07", G, "num_control_qubits=self.num_control_qubits + num_control_qubits)", "num_control_qubits=max(self.num_control_qubits, num_control_qubits))")
B("C07", G, "return self.wrapped_gate.matrix.adjoint()", "return self.wrapped_gate.matrix.T if all(e.is_real for e in self.wrapped_gate.matrix.diagonal()) else self.wrapped_gate.matrix.adjoint()")
B("C07", G, "return self.wrapped_gate.matrix.adjoint()", "return self.wrapped_gate.matrix.inv()", name="inv for adjoint (non-unitary custom)")
B("C07", G, "return self.wrapped_gate.replace_params(new_params).controlled(self.num_control_qubits)", "return self.wrapped_gate.replace_params(new_params).controlled(1)")
B("C07", G, "return self.wrapped_gate.replace_params(new_params).power(self.exponent)", "return self.wrapped_gate.replace_params(new_params)")
B("C07", G, "return self.wrapped_gate.dagger.power(self.exponent)", "return self.wrapped_gate.power(-self.exponent)", name="dagger as negative power")
B("C07", G, "        return Power(self, exponent)\n\n    def bind(self, symbols_map: Dict[sympy.Symbol, Parameter]) -> 'Gate':\n        raise NotImplementedError('Gates raised",
  "        return Power(self.wrapped_gate, self.exponent * exponent)\n\n    def bind(self, symbols_map: Dict[sympy.Symbol, Parameter]) -> 'Gate':\n        raise NotImplementedError('Gates raised", name="merge powers")
B("C07", G, "return self.wrapped_gate.dagger.exp", "return self.wrapped_gate.exp.dagger if False else Dagger(self.wrapped_gate.dagger.exp)")
B("C07", G, "        return self.wrapped_gate.matrix ** self.exponent", "        if self.wrapped_gate.is_hermitian if hasattr(self.wrapped_gate, 'is_hermitian') else False:\n            return self.wrapped_gate.matrix ** (self.exponent % 2)\n        return self.wrapped_gate.matrix ** int(self.exponent)")
B("C07", G, "return self if self.is_hermitian else Dagger(self)", "return self if self.is_hermitian or not self.params else Dagger(self)")
# C08
B("C08", Ci, "operations=[op.gate.dagger(*op.qubit_indices) for op in reversed(self.operations)]", "operations=[op.gate.dagger(*reversed(op.qubit_indices)) for op in reversed(self.operations)]")
B("C08", Ci, "for op in reversed(self.operations)], n_qubits=self.n_qubits)", "for op in reversed(self.operations)])")
B("C08", Ci, "i + 1 if i >= control_index else i for i in op.qubit_indices", "i + 1 if i > control_index else i for i in op.qubit_indices")
B("C08", Ci, "return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)", "return Circuit(c_ops)")
B("C08", Ci, "new_indices_with_control = (control_index, *new_indices)", "new_indices_with_control = (*new_indices, control_index)")
B("C08", Ci, "            controlled_op = op.gate.controlled(1)\n", "            if op.gate.name == 'I':\n                continue\n            controlled_op = op.gate.controlled(1)\n", name="skip identities") if False else None
# C20 aliasing
B("C20", Ci, "self._operations = list(operations) if operations is not None else []", "self._operations = operations if isinstance(operations, list) else list(operations) if operations is not None else []")
B("C20", Ci, "    return type(circuit)(operations=[*circuit.operations, other], n_qubits=max(circuit.n_qubits, n_qubits_by_operation))",
  "    operations = circuit.operations\n    operations.append(other)\n    return type(circuit)(operations=operations, n_qubits=max(circuit.n_qubits, n_qubits_by_operation))")
B("C20", Ci, "        for op in reversed(self.operations):\n            if isinstance(op, _gates.GateOperation):\n                lifted_matrices += [op.lifted_matrix(self.n_qubits)]",
  "        self.operations.reverse()\n        for op in self.operations:\n            if isinstance(op, _gates.GateOperation):\n                lifted_matrices += [op.lifted_matrix(self.n_qubits)]")
B("C20", W, "return np.multiply(np.asarray(amplitude_vector), exp_params)", "amplitude_vector = np.asarray(amplitude_vector, dtype=complex)\n        amplitude_vector *= exp_params\n        return amplitude_vector")

C = "circuits/_circuit.py"
G = "circuits/_gates.py"
S(C, "return 0 if not operations else max(", "return 0 if len(operations) == 0 else max(")
S(C, "list(operations) if operations is not None else []", "[] if operations is None else [*operations]")
S(C, "if cast_n_qubits <= 0:", "if cast_n_qubits < 1:")
S(C, "if cast_n_qubits <= 0:", "if not cast_n_qubits > 0:")
S(C, "self._n_qubits = n_qubits\n", "self._n_qubits = cast_n_qubits\n") if False else None
S(C, "seen_symbols = set()", "seen_symbols = set(())")
S(C, "symbols_sequence.append(symbol)", "symbols_sequence += [symbol]")
S(C, "if symbol not in seen_symbols:\n                    seen_symbols.add(symbol)\n                    symbols_sequence.append(symbol)",
  "if symbol in seen_symbols:\n                    continue\n                seen_symbols.add(symbol)\n                symbols_sequence.append(symbol)")
S(C, "return list(self.operations) == list(other.operations)", "return [*self.operations] == [*other.operations]")
S(C, "return list(self.operations) == list(other.operations)", "return self.operations == other.operations")
S(C, "if self.n_qubits != other.n_qubits:\n            return False\n        return list(", "return self.n_qubits == other.n_qubits and list(")
S(C, "lifted_matrices += [op.lifted_matrix(self.n_qubits)]", "lifted_matrices.append(op.lifted_matrix(self.n_qubits))")
S(C, "for op in reversed(self.operations):\n            if isinstance", "for op in self.operations[::-1]:\n            if isinstance")
S(C, "if not lifted_matrices:", "if len(lifted_matrices) == 0:")
S(C, "np.eye(2 ** self.n_qubits, dtype=complex)", "np.eye(1 << self.n_qubits, dtype=complex)")
S(C, "reduce(operator.matmul, lifted_matrices)", "reduce(lambda a, b: a @ b, lifted_matrices)")
S(C, "', '.join(map(str, self.operations))", "', '.join((str(op) for op in self.operations))")
S(C, "type(self)(operations=[op.bind(symbols_map) for op in self.operations], n_qubits=self.n_qubits)",
  "type(self)([op.bind(symbols_map) for op in self.operations], self.n_qubits)")
S(C, "type(self)(operations=[op.bind(symbols_map) for op in self.operations], n_qubits=self.n_qubits)",
  "self.__class__(operations=list(map(lambda op: op.bind(symbols_map), self._operations)), n_qubits=self._n_qubits)")
S(C, "(i + 1 if i >= control_index else i for i in op.qubit_indices)", "(i if i < control_index else i + 1 for i in op.qubit_indices)")
S(C, "(i + 1 if i >= control_index else i for i in op.qubit_indices)", "[i + (i >= control_index) for i in op.qubit_indices]")
S(C, "(control_index, *new_indices)", "(control_index,) + tuple(new_indices)")
S(C, "max(self.n_qubits, control_index) + 1", "1 + max(control_index, self.n_qubits)")
S(C, "max(self.n_qubits, control_index) + 1", "max(self.n_qubits + 1, control_index + 1)")
S(C, "max(other.qubit_indices) + 1", "1 + max(other.qubit_indices)")
S(C, "[*circuit.operations, other]", "list(circuit.operations) + [other]")
S(C, "[*circuit.operations, *other.operations]", "circuit.operations + other.operations")
S(C, "Circuit(operations, n_qubits=n_qubits)", "Circuit(list(operations), n_qubits)")
S(C, "elif unique_operation_dict[gate_def.gate_name] != gate_def:", "elif not unique_operation_dict[gate_def.gate_name] == gate_def:")
S(C, "key=operator.attrgetter('gate_name')", "key=lambda gate_def: gate_def.gate_name")
S(C, "op.gate.dagger(*op.qubit_indices) for op in reversed(self.operations)", "op.gate.dagger(*op.qubit_indices) for op in reversed(list(self.operations))")
S(G, "return not not gate_params", "return bool(gate_params)")
S(G, "num_qubits = np.log2(len(amplitude_vector))\n        if 2 ** num_qubits != len(amplitude_vector):", "size = len(amplitude_vector)\n        num_qubits = np.log2(size)\n        if size != 2 ** num_qubits:")
S(G, "{','.join(map(str, self.qubit_indices))}", "{','.join([str(i) for i in self.qubit_indices])}")
S(G, "return self if self.is_hermitian else Dagger(self)", "return Dagger(self) if not self.is_hermitian else self")
S(G, "self.matrix_factory(*self.params)", "self.matrix_factory(*list(self.params))")
S(G, "tuple((sub_symbols(param, symbols_map) for param in self.params))", "tuple([sub_symbols(param, symbols_map) for param in self.params])")
S(G, "return replace(self, params=new_params)", "return MatrixFactoryGate(name=self.name, matrix_factory=self.matrix_factory, params=new_params, num_qubits=self.num_qubits, is_hermitian=self.is_hermitian)")
S(G, "return replace(self, params=new_params)", "return MatrixFactoryGate(self.name, self.matrix_factory, new_params, self.num_qubits, self.is_hermitian)")
S(G, "if self.num_control_qubits < 1:", "if self.num_control_qubits <= 0:")
S(G, "self.wrapped_gate.num_qubits + self.num_control_qubits", "self.num_control_qubits + self.wrapped_gate.num_qubits")
S(G, "self.num_control_qubits * 'c-' + str(self.wrapped_gate)", "'c-' * self.num_control_qubits + str(self.wrapped_gate)")
S(G, "self.num_control_qubits * 'c-' + str(self.wrapped_gate)", "f\"{'c-' * self.num_control_qubits}{self.wrapped_gate}\"")
S(G, "self.wrapped_gate.matrix.adjoint()", "self.wrapped_gate.matrix.H")
S(G, "self.wrapped_gate.matrix.adjoint()", "self.wrapped_gate.matrix.conjugate().transpose()")
S(G, "self.wrapped_gate.matrix.adjoint()", "self.wrapped_gate.matrix.T.conjugate()")
S(G, "self.wrapped_gate.name + '_' + DAGGER_GATE_NAME", "f'{self.wrapped_gate.name}_{DAGGER_GATE_NAME}'")
S(G, "if len(self.wrapped_gate.free_symbols) > 0:\n            raise ValueError('Cannot return", "if self.wrapped_gate.free_symbols:\n            raise ValueError('Cannot return")
S(G, "self.wrapped_gate.matrix ** self.exponent", "pow(self.wrapped_gate.matrix, self.exponent)")
S(G, "self.wrapped_gate.matrix ** self.exponent", "self.wrapped_gate.matrix.pow(self.exponent)")
S(G, "'exp' + POWER_GATE_SYMBOL + '{' + str(self.wrapped_gate) + '}'", "f'exp{POWER_GATE_SYMBOL}{{{self.wrapped_gate}}}'")
S(G, "math.floor(math.log2(matrix.shape[0]))", "int(math.log2(matrix.shape[0]))")
S(G, "if 2 ** n_qubits != matrix.shape[0] or 2 ** n_qubits != matrix.shape[1]:", "if not (matrix.shape[0] == 2 ** n_qubits and matrix.shape[1] == 2 ** n_qubits):")
S(G, "if 2 ** n_qubits != matrix.shape[0] or 2 ** n_qubits != matrix.shape[1]:", "if tuple(matrix.shape) != (2 ** n_qubits, 2 ** n_qubits):")
S(G, "{symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}", "dict(zip(self.params_ordering, gate_params))")
S(G, "if self.params_ordering != other.params_ordering:\n            return False\n        if not _are_matrices_equal(self.matrix, other.matrix):\n            return False\n        return True",
  "return self.params_ordering == other.params_ordering and _are_matrices_equal(self.matrix, other.matrix)")
S(G, "float(sympy.re(difference)) + 1j * float(sympy.im(difference))", "complex(float(sympy.re(difference)), float(sympy.im(difference)))")
S(G, "np.allclose(float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0)", "bool(np.allclose(complex(difference), 0))")
S(G, "wrapped_gate = self.wrapped_gate\n    has_non_commuting_gate_type = False\n    while True:\n        if type(self.wrapped_gate) in non_commuting_gate_types:\n            has_non_commuting_gate_type = True\n        if hasattr(wrapped_gate, 'wrapped_gate'):\n            wrapped_gate = wrapped_gate.wrapped_gate\n        else:\n            break\n    return has_non_commuting_gate_type",
  "return type(self.wrapped_gate) in non_commuting_gate_types")
S(G, "if len(self.params) != len(other.params):\n            return False\n        return all(", "return len(self.params) == len(other.params) and all(")
S(G, "sympy.eye(2 ** self.num_qubits - 2 ** self.wrapped_gate.num_qubits)", "sympy.eye(2 ** self.wrapped_gate.num_qubits * (2 ** self.num_control_qubits - 1))")
P = "circuits/_serde.py"
S(P, "[[serialize_expr(element) for element in matrix.row(row_i)] for row_i in range(matrix.shape[0])]", "[[serialize_expr(matrix[i, j]) for j in range(matrix.shape[1])] for i in range(matrix.shape[0])]")
S(P, "[[serialize_expr(element) for element in matrix.row(row_i)] for row_i in range(matrix.shape[0])]", "[[serialize_expr(e) for e in matrix[i, :]] for i in range(matrix.rows)]")
S(P, "[[serialize_expr(element) for element in matrix.row(row_i)] for row_i in range(matrix.shape[0])]", "[list(map(serialize_expr, row)) for row in matrix.tolist()]")
S(P, "list(map(fn, iterable))", "[fn(x) for x in iterable]")
S(P, "sorted(map(str, gate.free_symbols))", "sorted((str(s) for s in gate.free_symbols))")
S(P, "'qubit_indices': list(gate_operation.qubit_indices)", "'qubit_indices': [*gate_operation.qubit_indices]")
S(P, "qubit_indices=tuple(dict_['qubit_indices'])", "qubit_indices=(*dict_['qubit_indices'],)")
S(P, "qubit_indices=tuple(dict_['qubit_indices'])", "qubit_indices=tuple([int(i) for i in dict_['qubit_indices']])")
S(P, "dict_.get('custom_gate_definitions', [])", "dict_.get('custom_gate_definitions', ())")
S(P, "json.dump(to_dict(circuit), f)", "f.write(json.dumps(to_dict(circuit)))")
S(P, "circuit_from_dict(json.load(f))", "circuit_from_dict(json.loads(f.read()))")
S(P, "sorted(symbol_names, key=len, reverse=True)", "sorted(symbol_names, key=lambda name: -len(name))")
S(P, "sorted(symbol_names, key=len, reverse=True)", "sorted(list(symbol_names), key=len, reverse=True)")
S(P, "if not names:", "if names == []:")
S(P, "any((gate_def.gate_name == dict_['name'] for gate_def in custom_gate_defs))", "dict_['name'] in [d.gate_name for d in custom_gate_defs]")
S(P, "any((gate_def.gate_name == dict_['name'] for gate_def in custom_gate_defs))", "dict_['name'] in {d.gate_name for d in custom_gate_defs}")
S(P, "params_ordering=tuple(symbols)", "params_ordering=tuple((s for s in symbols))")
S(P, "gate_ref is None", "not gate_ref") if False else None
S(P, "{'n_qubits': circuit.n_qubits, **({'operations'", "{**{'n_qubits': circuit.n_qubits}, **({'operations'")
S(P, "_map_eager(circuit_from_dict, dict_['circuits'])", "[circuit_from_dict(d) for d in dict_['circuits']]")
L = "circuits/layouts.py"
Y = "circuits/layers.py"
import os
U = "circuits/_unitary_tools.py"
S(U, "[int(char) for char in bin(i)[2:].zfill(num_qubits)]", "[int(char) for char in format(i, f'0{num_qubits}b')]")
S(U, "[int(char) for char in bin(i)[2:].zfill(num_qubits)]", "[i >> (num_qubits - 1 - k) & 1 for k in range(num_qubits)]")
S(U, "[int(char) for char in bin(i)[2:].zfill(num_qubits)]", "[int(char) for char in f'{i:b}'.zfill(num_qubits)]")
S(U, "sorted(target_indices_order) != list(range(num_qubits))", "set(target_indices_order) != set(range(num_qubits))")
S(U, "sorted(target_indices_order) != list(range(num_qubits))", "list(range(num_qubits)) != sorted(target_indices_order)")
S(U, "list(qubit_indices) + [i for i in range(num_qubits) if i not in qubit_indices]", "[*qubit_indices, *(i for i in range(num_qubits) if i not in qubit_indices)]")
S(U, "list(qubit_indices) + [i for i in range(num_qubits) if i not in qubit_indices]", "list(qubit_indices) + sorted(set(range(num_qubits)) - set(qubit_indices))")
S(U, "smallest, largest = (min(qubit_indices), max(qubit_indices))", "smallest = min(qubit_indices)\n    largest = max(qubit_indices)")
S(U, "perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix", "perm_matrix.T @ inner_gate_matrix @ perm_matrix")
S(U, "perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix", "perm_matrix.transpose() @ (inner_gate_matrix @ perm_matrix)")
S(U, "reduce(kronecker_product, [eye(2 ** smallest), inner_matrix, eye(2 ** (num_qubits - largest - 1))])", "kronecker_product(kronecker_product(eye(2 ** smallest), inner_matrix), eye(2 ** (num_qubits - largest - 1)))")
S(U, "lambda size: sympy.zeros(*size)", "lambda size: sympy.zeros(size[0], size[1])")
S(U, "[vector[i] for i in permutation]", "list(map(lambda i: vector[i], permutation))")
S(U, "np.array(matrix, dtype=complex)", "np.asarray(matrix, dtype=complex)")
S(U, "np.array(matrix, dtype=complex)", "np.array(matrix).astype(complex)")
W = "wavefunction.py"
S(W, "np.array(sympy_matrix, dtype=new_type).flatten()", "np.array(sympy_matrix, dtype=new_type).reshape(-1)")
S(W, "np.array(sympy_matrix, dtype=new_type).flatten()", "np.array(sympy_matrix, dtype=new_type).ravel()")
S(W, "np.complex128 if complex else np.float64", "np.float64 if not complex else np.complex128")
S(W, "(val | val - 1) + 1", "1 + (val - 1 | val)")
S(W, "bin_string = bin(val)\n    return len(bin_string) - 2", "return val.bit_length()") if False else None
S(W, "bin(len(amplitude_vector)).count('1') != 1", "len(amplitude_vector) == 0 or len(amplitude_vector) & len(amplitude_vector) - 1 != 0")
S(W, "bin(len(amplitude_vector)).count('1') != 1", "not bin(len(amplitude_vector)).count('1') == 1")
S(W, "np.array(amplitude_vector, dtype=complex).flatten()", "np.array(amplitude_vector, dtype=np.complex128).flatten()")
S(W, "np.array(amplitude_vector, dtype=complex).flatten()", "np.array(amplitude_vector, dtype=complex).ravel()")
S(W, "np.sum(np.abs(numbers) ** 2)\n            if not np.isclose", "(np.abs(numbers) ** 2).sum()\n            if not np.isclose")
S(W, "np.sum(np.abs(numbers) ** 2)\n            if not np.isclose", "np.sum(np.square(np.abs(numbers)))\n            if not np.isclose")
S(W, "if probs_of_ground_entries > 1.0:", "if not probs_of_ground_entries <= 1.0:")
S(W, "[elem for elem in arr if _is_number(elem)]", "list(filter(_is_number, arr))")
S(W, "np.isclose(probs_of_ground_entries, 1.0)", "np.isclose(probs_of_ground_entries, 1)")
S(W, "if not isinstance(other, Wavefunction):\n            return False\n        return np.array_equal(self.amplitudes, other.amplitudes)", "return isinstance(other, Wavefunction) and np.array_equal(self.amplitudes, other.amplitudes)")
S(W, "if n_qubits <= 0:\n            raise", "if n_qubits < 1:\n            raise")
S(W, "np_arr[0] = 1.0", "np_arr[0] = 1")
S(W, "if hamming_weight > n_qubits:", "if n_qubits < hamming_weight:")
S(W, "int('1' * hamming_weight, base=2)", "int('1' * hamming_weight, 2)")
S(W, "int('1' * hamming_weight, base=2)", "2 ** hamming_weight - 1")
S(W, "int('1' * hamming_weight, base=2)", "(1 << hamming_weight) - 1")
S(W, "if not _most_significant_set_bit(current_value) <= n_qubits:", "if _most_significant_set_bit(current_value) > n_qubits:")
S(W, "1 / np.sqrt(counter)", "1.0 / np.sqrt(counter)")
S(W, "1 / np.sqrt(counter)", "1 / np.sqrt(len(indices))")
S(W, "1 / np.sqrt(counter)", "counter ** -0.5")
S(W, "np.abs(self.amplitudes) ** 2", "np.abs(self.amplitudes) * np.abs(self.amplitudes)")
S(W, "np.abs(self.amplitudes) ** 2", "abs(self.amplitudes) ** 2")
S(W, "np.abs(self.amplitudes) ** 2", "np.square(np.abs(self.amplitudes))")
S(W, "np.abs(self.amplitudes) ** 2", "np.power(np.abs(self.amplitudes), 2)")
S(W, "return dict(zip(values, probs))", "return {v: p for v, p in zip(values, probs)}")
S(W, "format(i, '0' + str(self.n_qubits) + 'b')[::-1]", "format(i, f'0{self.n_qubits}b')[::-1]")
S(W, "format(i, '0' + str(self.n_qubits) + 'b')[::-1]", "bin(i)[2:].zfill(self.n_qubits)[::-1]")
S(W, "format(i, '0' + str(self.n_qubits) + 'b')[::-1]", "''.join(reversed(format(i, '0' + str(self.n_qubits) + 'b')))")
S(W, "np.asarray(amplitudes)[ordering]", "np.array(amplitudes)[ordering]")
S(W, "np.asarray(amplitudes)[ordering]", "np.take(np.asarray(amplitudes), ordering)")
S(W, "num_bits * [2]", "[2] * num_bits")
S(W, ".transpose(*reversed(range(num_bits)))", ".transpose()")
S(W, ".transpose(*reversed(range(num_bits)))", ".transpose(*range(num_bits)[::-1])")
S(W, ".reshape(2 ** num_bits)\n", ".reshape(-1)\n")
S(W, "data: Dict[str, Any] = {}\n    data['amplitudes'] = convert_array_to_dict(wavefunction.amplitudes)", "data: Dict[str, Any] = {'amplitudes': convert_array_to_dict(wavefunction.amplitudes)}")
S(W, "f.write(json.dumps(data, indent=2))", "json.dump(data, f, indent=2)")
S(W, "if n_samples < 1:", "if n_samples <= 0:")
S(W, "if len(wavefunction) < n_samples:", "if n_samples > len(wavefunction):")
S(W, "outcome_tuples += [0]", "outcome_tuples.append(0)")
S(W, "for x in list(probabilities_np)", "for x in probabilities_np")
S(W, "copy(self._amplitude_vector[idx])", "deepcopy(self._amplitude_vector[idx])", "from copy import copy", "from copy import deepcopy")
S(W, "int(log2(len(self)))", "int(log2(len(self._amplitude_vector)))")
S(W, "int(log2(len(self)))", "len(self).bit_length() - 1")
M = "circuits/_wavefunction_operations.py"
S(M, "isinstance(param, Complex) and (not _is_real(param))", "(not _is_real(param)) if isinstance(param, Complex) else False")
S(M, "tuple(range(n_qubits))", "tuple((i for i in range(n_qubits)))")
S(M, "np.exp(np.asarray(self.params, dtype=float) * 1j)", "np.exp(1j * np.array(self.params, dtype=float))")
S(M, "np.multiply(np.asarray(amplitude_vector), exp_params)", "np.asarray(amplitude_vector) * exp_params")
S(M, "np.multiply(np.asarray(amplitude_vector), exp_params)", "exp_params * np.asarray(amplitude_vector)")
S(M, "len(tuple(new_params)) != 0", "len(tuple(new_params)) > 0")
S(M, "len(tuple(new_params)) != 0", "tuple(new_params)")

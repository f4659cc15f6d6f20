G = "circuits/_gates.py"; Ci = "circuits/_circuit.py"; U = "circuits/_unitary_tools.py"; W = "circuits/_wavefunction_operations.py"
WS = "api/wavefunction_simulator.py"; SS = "runners/symbolic_simulator.py"; WF = "wavefunction.py"; X = "utils.py"
# ---- fast paths, caches, vectorisation, helper with an error
B("C01", U, "    matrix = np.array(matrix, dtype=complex)\n", "    if len(qubits) == num_qubits:\n        return np.array(matrix, dtype=complex)\n    matrix = np.array(matrix, dtype=complex)\n", name="numpy fast path for full register")
B("C01", U, "    smallest, largest = (min(qubit_indices), max(qubit_indices))\n", "    if len(qubit_indices) == 2 and abs(qubit_indices[0] - qubit_indices[1]) == 1:\n        first = min(qubit_indices)\n        return reduce(kronecker_product, [eye(2 ** first), matrix, eye(2 ** (num_qubits - first - 2))])\n    smallest, largest = (min(qubit_indices), max(qubit_indices))\n", name="adjacent fast path ignores order")
B("C01", U, "def _permutation_matrix(target", "_PERMUTATIONS = {}\n\n\ndef _permutation_matrix_cached(target_indices_order, zeros, bitstring_to_dense_vector):\n    key = tuple(sorted(target_indices_order))\n    if key not in _PERMUTATIONS:\n        _PERMUTATIONS[key] = _permutation_matrix(target_indices_order, zeros, bitstring_to_dense_vector)\n    return _PERMUTATIONS[key]\n\n\ndef _permutation_matrix(target", more=[("perm_matrix = _permutation_matrix(inner", "perm_matrix = _permutation_matrix_cached(inner")], name="cache with sorted key")
B("C01", U, "    for i in range(2 ** num_qubits):\n        input_state = _basis_bitstring(i, num_qubits)\n        output_state = _permute(input_state, target_indices_order)\n        perm_matrix[:, i] = bitstring_to_dense_vector(output_state)\n", "    for i in range(2 ** num_qubits):\n        input_state = _basis_bitstring(i, num_qubits)\n        output_state = _permute(input_state, target_indices_order)\n        perm_matrix[i, :] = bitstring_to_dense_vector(output_state)\n", name="rows for columns")
B("C01", G, "        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector", "        if sorted(self.qubit_indices) == list(range(int(num_qubits))):\n            return np.array(self.gate.matrix, dtype=complex) @ amplitude_vector\n        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector", name="apply fast path ignores order")
B("C01", Ci, "        return reduce(operator.matmul, lifted_matrices)", "        return reduce(lambda acc, m: m @ acc, lifted_matrices)", name="reduce reversed operands")
B("C01", WS, "            state = np.zeros(2 ** circuit.n_qubits)\n            state[0] = 1\n", "            state = np.zeros(2 ** circuit.n_qubits)\n            state[-1 if circuit.n_qubits == 0 else 0] = 1\n            if not circuit.operations:\n                return Wavefunction(state[:2])\n", name="empty circuit shortcut truncates")
B("C01", WS, "state = self._get_wavefunction_from_native_circuit(subcircuit, state)", "state = self._get_wavefunction_from_native_circuit(subcircuit, initial_state if initial_state is not None else state)", name="initial state reused for later native segments")
B("C01", WS, "            else:\n                for operation in subcircuit.operations:\n                    state = operation.apply(state)\n", "            else:\n                state = subcircuit.operations[0].apply(state)\n", name="only first non-native op")
B("C01", Ci, "    for predicate_value, operations in groupby(circuit.operations, predicate):\n        yield (predicate_value, Circuit(operations, n_qubits=n_qubits))", "    for predicate_value, operations in groupby(sorted(circuit.operations, key=predicate), predicate):\n        yield (predicate_value, Circuit(operations, n_qubits=n_qubits))", name="groupby after sort")
B("C01", SS, "        for operation in circuit.operations:\n            state = operation.apply(state)\n", "        for operation in circuit.operations:\n            if not getattr(operation, 'params', None) and operation.free_symbols:\n                continue\n            state = operation.apply(state)\n", name="benign-looking skip")
B("C01", W, "        if len(amplitude_vector) != len(self.params):\n", "        if len(amplitude_vector) % len(self.params):\n", more=[("return np.multiply(np.asarray(amplitude_vector), exp_params)", "return np.multiply(np.asarray(amplitude_vector), np.resize(exp_params, len(amplitude_vector)))")], name="phases tiled over larger register")
B("C01", W, "np.exp(np.asarray(self.params, dtype=float) * 1j)", "np.exp(np.mod(np.asarray(self.params, dtype=float), np.pi) * 1j)", name="phases mod pi")
B("C01", Ci, "    n_qubits_by_operation = max(other.qubit_indices) + 1\n", "    n_qubits_by_operation = len(other.qubit_indices)\n")
# C05
B("C05", G, "        if self.gate_name != other.gate_name:\n            return False\n", "")
B("C05", G, "return np.allclose(float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0)", "return np.allclose(float(sympy.re(difference)) + 1j * float(sympy.im(difference)), 0, atol=1e-2)")
B("C05", G, "    except TypeError:\n        return False\n\ndef _are_matrices_equal", "    except TypeError:\n        return not difference.free_symbols\n\ndef _are_matrices_equal")
B("C05", Ci, "        if self.n_qubits != other.n_qubits:\n            return False\n", "")
B("C05", Ci, "return sorted(unique_operation_dict.values(), key=operator.attrgetter('gate_name'))", "return list(unique_operation_dict.values())[:len(self.operations) - 1 or None]")
# C06
B("C06", G, "            return False\n        return all((_are_matrix_elements_equal(p1", "            return False\n        return all((_are_matrix_elements_equal(p1")if 0 else None
B("C06", G, "        return self.matrix_factory(*self.params)", "        return _cached_matrix(self.name, self.params) if False else self.matrix_factory(*[sympy.nsimplify(p, rational=True) if isinstance(p, float) else p for p in self.params])", name="nsimplify params")
B("C06", G, "        return self.matrix_factory(*self.params)", "        if not hasattr(self, '_matrix'):\n            object.__setattr__(self, '_matrix', self.matrix_factory(*self.params))\n        return self._matrix", more=[("        return replace(self, params=new_params)", "        new_gate = copy(self)\n        object.__setattr__(new_gate, 'params', new_params)\n        return new_gate")], pre="from copy import copy", name="stale cached matrix after copy")
B("C06", G, "        return GateOperation(self.gate.bind(symbols_map), self.qubit_indices)", "        if not any(s in symbols_map for s in self.gate.free_symbols):\n            return self\n        return GateOperation(self.gate.bind(symbols_map), self.qubit_indices)", name="op.bind skip hides NotImplementedError of power")
B("C06", G, "        return self.wrapped_gate.bind(symbols_map).controlled(self.num_control_qubits)", "        return self.wrapped_gate.bind(symbols_map).controlled(self.num_qubits - 1)", name="controls from width")
B("C06", W, "        return get_free_symbols(self.params)\n\n@dataclass\nclass Reset", "        return [p for p in self.params if isinstance(p, sympy.Symbol)]\n\n@dataclass\nclass Reset", pre="import sympy")
B("C06", Ci, "                if symbol not in seen_symbols:\n", "                if str(symbol) not in seen_symbols:\n", more=[("                    seen_symbols.add(symbol)\n", "                    seen_symbols.add(str(symbol))\n")], name="symbols by name")
B("C06", G, "    @property\n    def free_symbols(self) -> Iterable[sympy.Symbol]:\n        return self.gate.free_symbols\n", "    @property\n    def free_symbols(self) -> Iterable[sympy.Symbol]:\n        return self.gate.matrix.free_symbols\n", name="free symbols of the matrix")
# C07
B("C07", G, "        return self.wrapped_gate.matrix.adjoint()", "        return self.wrapped_gate.matrix.T.applyfunc(lambda x: x if x.free_symbols else sympy.conjugate(x))", name="symbolic entries not conjugated")
B("C07", G, "        return self.wrapped_gate.matrix.adjoint()", "        return self.wrapped_gate.matrix ** -1", name="inverse for adjoint")
B("C07", G, "        return self.wrapped_gate.controlled(num_control_qubits).dagger\n", "        return ControlledGate(self.wrapped_gate, num_control_qubits)\n")
B("C07", G, "        return self.wrapped_gate.matrix ** self.exponent", "        return self.wrapped_gate.matrix ** (self.exponent % 2 if self.wrapped_gate.dagger == self.wrapped_gate else self.exponent)", name="hermitian parity shortcut")
B("C07", G, "        return self.wrapped_gate.matrix ** self.exponent", "        if float(self.exponent).is_integer():\n            return self.wrapped_gate.matrix ** abs(int(self.exponent))\n        return self.wrapped_gate.matrix ** self.exponent")
B("C07", G, "        return self.wrapped_gate.matrix.exp()", "        return sympy.exp(1) * self.wrapped_gate.matrix if self.wrapped_gate.matrix.is_diagonal() else self.wrapped_gate.matrix.exp()")
B("C07", G, "    def exp(self) -> 'Gate':\n        return Exponential(self)\n\n    def power(self, exponent: float) -> 'Gate':\n        return ControlledGate(", "    def exp(self) -> 'Gate':\n        return ControlledGate(self.wrapped_gate.exp, self.num_control_qubits)\n\n    def power(self, exponent: float) -> 'Gate':\n        return ControlledGate(", name="exp through control")
B("C07", G, "        return self.wrapped_gate.replace_params(new_params).exp\n", "        return replace(self, wrapped_gate=self.wrapped_gate)\n")
B("C07", G, "        return self.wrapped_gate.num_qubits + self.num_control_qubits\n", "        return self.wrapped_gate.num_qubits + max(self.num_control_qubits, 1) if self.params else self.num_control_qubits + 1\n")
B("C07", G, "        return replace(self, params=new_params)", "        return replace(self, params=tuple(new_params)[:len(self.params)] + self.params[len(new_params):])", name="params padded")
# C08
B("C08", Ci, "operations=[op.gate.dagger(*op.qubit_indices) for op in reversed(self.operations)]", "operations=[op if getattr(op.gate, 'is_hermitian', False) else op.gate.dagger(*op.qubit_indices) for op in self.operations][::-1 if self.free_symbols else 1]", name="reverse only symbolic")
B("C08", Ci, "            new_indices = (i + 1 if i >= control_index else i for i in op.qubit_indices)\n", "            new_indices = (i + 1 if i >= control_index and control_index < self.n_qubits - 1 else i for i in op.qubit_indices)\n")
B("C08", Ci, "            controlled_op = op.gate.controlled(1)\n", "            controlled_op = op.gate.controlled(1) if op.qubit_indices != (control_index,) else op.gate.controlled(1).dagger\n")
# C04
B("C04", WF, "[::-1] if self.n_qubits else '' for i", "[::-1] if self.n_qubits > 1 else '' if not self.n_qubits else str(1 - i) for i")
B("C04", WF, "    if len(wavefunction) < n_samples:\n", "    if len(wavefunction) < n_samples:\n        outcome_strings = [s[::-1] for s in outcome_strings]\n", name="reversed for many samples")
B("C04", WF, "        string_samples = rng.choice(a=outcome_strings, size=n_samples, p=probabilities)\n", "        string_samples = [outcome_strings[i] for i in rng.choice(len(outcome_strings), size=n_samples, p=sorted(probabilities))]\n")
B("C04", X, "tuple((int(bit) for bit in bitstring[::-1]))", "tuple((int(bit) for bit in reversed(bitstring.lstrip('0').zfill(2))))")
B("C04", X, "    return ''.join(map(str, tup))", "    return ''.join(map(str, sorted(tup) if len(set(tup)) == 1 else tup[::-1]))")
# C12
B("C12", WF, "        old_val = copy(self._amplitude_vector[idx])\n", "        old_val = self._amplitude_vector[idx]\n")
B("C12", WF, "        except Exception:\n            self._amplitude_vector[idx] = old_val\n            raise\n", "        except Exception:\n            raise\n")
B("C12", WF, "            self._amplitude_vector[idx] = val\n            self._check_normalization(self._amplitude_vector)\n", "            self._amplitude_vector[idx] = val\n            if not isinstance(idx, slice):\n                self._check_normalization(self._amplitude_vector)\n")
B("C12", WF, "            self._amplitude_vector = np.array(amplitude_vector, dtype=complex).flatten()", "            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex).reshape(-1)")
B("C12", WF, "            if probs_of_ground_entries > 1.0:", "            if probs_of_ground_entries > len(arr):")
B("C12", WF, "            if not np.isclose(probs_of_ground_entries, 1.0):", "            if probs_of_ground_entries > 1.0 and not np.isclose(probs_of_ground_entries, 1.0):")
B("C12", WF, "            return type(self)(result)\n", "            wavefunction = copy(self)\n            wavefunction._amplitude_vector = result\n            return wavefunction\n", name="bind bypasses check")
B("C12", WF, "                if not _most_significant_set_bit(current_value) <= n_qubits:", "                if not current_value < 2 ** n_qubits - 1:")
B("C12", WF, "    return np.asarray(amplitudes)[ordering]", "    return np.asarray(amplitudes)[ordering] if number_of_states > 2 else np.asarray(amplitudes)[::-1]")
B("C12", WF, "transpose(*reversed(range(num_bits)))", "transpose(*(list(range(1, num_bits)) + [0]))") 
B("C12", WF, "        return np.abs(self.amplitudes) ** 2", "        return np.real(self.amplitudes) ** 2 + np.imag(self.amplitudes) * np.real(self.amplitudes)")
B("C12", X, "    if dictionary.get('imag'):\n", "    if any(dictionary.get('imag', [])[:1]):\n")
B("C12", X, "        dictionary['imag'] = array.imag.tolist()\n", "        if np.any(array.imag > 0):\n            dictionary['imag'] = array.imag.tolist()\n")
# C13
B("C13", X, "    for index in range(int(round(total - sum(result)))):\n        result[indexes_sorted_by_remainder[index]] += 1\n", "    result[indexes_sorted_by_remainder[0]] += total - sum(result)\n")
B("C13", X, "    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]\n", "    indexes_sorted_by_remainder = np.argsort(values)[::-1]\n")
# C20
B("C20", WF, "        return self._amplitude_vector\n\n    @property\n    def n_qubits", "        self._amplitude_vector = self._amplitude_vector / np.linalg.norm(self._amplitude_vector)\n        return self._amplitude_vector\n\n    @property\n    def n_qubits")
B("C20", Ci, "        seen_symbols = set()\n        symbols_sequence = []\n", "        symbols_sequence = self.__dict__.setdefault('_free_symbols', [])\n        seen_symbols = set()\n", name="accumulating cached list")
B("C20", WF, "    return np.asarray(amplitudes)[ordering]", "    result = np.asarray(amplitudes)\n    result[:] = result[ordering]\n    return result")
# C14
B("C14", WS, "            self._n_jobs_executed += 1\n            if is_supported:\n", "            if is_supported:\n                self._n_jobs_executed += 1\n") 
B("C14", WS, "        if n_samples <= 0:\n            raise ValueError(f'Number of samples has to be positive, got {n_samples}')\n        result = self._run_and_measure(circuit, n_samples)\n", "        result = self._run_and_measure(circuit, n_samples)\n        if n_samples <= 0:\n            raise ValueError(f'Number of samples has to be positive, got {n_samples}')\n")
B("C14", WS, "return Measurements(sample_from_wavefunction(wavefunction, n_samples, self.seed))", "return Measurements(sample_from_wavefunction(wavefunction, min(n_samples, 2 ** 20), self.seed))")
B("C15", WS, "        return get_expectation_value(operator, wavefunction).real\n", "        return abs(get_expectation_value(operator, wavefunction))\n")
B("C04", WS, "            return create_bitstring_distribution_from_probability_distribution(wavefunction.get_probabilities())", "            return create_bitstring_distribution_from_probability_distribution(flip_amplitudes(wavefunction.get_probabilities()))", pre="from ..wavefunction import flip_amplitudes")

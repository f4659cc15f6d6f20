P = "operators/_pauli_operators.py"; IO = "operators/_io.py"; M = "measurements/measurements.py"; D = "distributions/_measurement_outcome_distribution.py"
CR = "api/circuit_runner.py"; ES = "estimation/_estimation.py"; E = "evolution.py"; C = "circuits/_circuit.py"; WO = "circuits/_wavefunction_operations.py"; W = "wavefunction.py"
B("C01", C, "        lifted_matrices = []\n        for op in reversed(self.operations):\n            if isinstance(op, _gates.GateOperation):\n                lifted_matrices += [op.lifted_matrix(self.n_qubits)]\n",
 "        lifted_matrices = []\n        lifted = {}\n        for op in reversed(self.operations):\n            if isinstance(op, _gates.GateOperation):\n                key = (op.gate.name, op.qubit_indices)\n                if key not in lifted:\n                    lifted[key] = op.lifted_matrix(self.n_qubits)\n                lifted_matrices += [lifted[key]]\n", name="lift cache by gate name")
B("C01", C, "        lifted_matrices = []\n        for op in reversed(self.operations):\n            if isinstance(op, _gates.GateOperation):\n                lifted_matrices += [op.lifted_matrix(self.n_qubits)]\n",
 "        lifted_matrices = []\n        lifted = {}\n        for op in reversed(self.operations):\n            if isinstance(op, _gates.GateOperation):\n                key = (op.gate, tuple(sorted(op.qubit_indices)))\n                if key not in lifted:\n                    lifted[key] = op.lifted_matrix(self.n_qubits)\n                lifted_matrices += [lifted[key]]\n", name="lift cache by sorted qubits")
B("C01", C, "        return reduce(operator.matmul, lifted_matrices)", "        while len(lifted_matrices) > 1:\n            pairs = [operator.matmul(a, b) for a, b in zip(lifted_matrices[::2], lifted_matrices[1::2])]\n            lifted_matrices = pairs + lifted_matrices[2 * len(pairs):-1]\n        return lifted_matrices[0]", name="tree product loses odd")
B("C01", C, "        if not lifted_matrices:\n            return np.eye(2 ** self.n_qubits, dtype=complex)\n", "        if len(lifted_matrices) < 1:\n            return np.eye(2 * self.n_qubits, dtype=complex)\n")
B("C06", C, "operations=[op.bind(symbols_map) for op in self.operations]", "operations=[op.bind(symbols_map) if op.free_symbols and set(op.free_symbols) <= set(symbols_map) else op for op in self.operations]", name="partial bind skipped")
B("C06", C, "                if symbol not in seen_symbols:\n                    seen_symbols.add(symbol)\n                    symbols_sequence.append(symbol)\n", "                if symbol.name not in seen_symbols:\n                    seen_symbols.add(symbol.name)\n                    symbols_sequence.append(symbol)\n", name="by name")
B("C06", WO, "        return self.replace_params(tuple((sub_symbols(param, symbols_map) for param in self.params)))\n\n    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MultiPhaseOperation'", "        if not self.free_symbols & symbols_map.keys():\n            return self\n        return self.replace_params(tuple((param.subs(symbols_map) if hasattr(param, 'subs') else param for param in self.params)))\n\n    def replace_params(self, new_params: Tuple[Parameter, ...]) -> 'MultiPhaseOperation'", name="sequential subs again")
B("C08", C, "        return Circuit(c_ops, n_qubits=max(self.n_qubits, control_index) + 1)", "        return Circuit(c_ops, n_qubits=self.n_qubits + 1)", name="control beyond")
B("C08", C, "            new_indices = (i + 1 if i >= control_index else i for i in op.qubit_indices)\n", "            new_indices = (i + 1 if min(op.qubit_indices) >= control_index else i for i in op.qubit_indices)\n", name="shift by min")
B("C08", C, "operations=[op.gate.dagger(*op.qubit_indices) for op in reversed(self.operations)]", "operations=[op.gate.dagger(*reversed(op.qubit_indices)) for op in reversed(self.operations)]")
B("C08", C, "        try:\n            return type(self)(operations=[op.gate.dagger", "        if len(set(self.operations)) == 1 and len(self.operations) > 8:\n            return type(self)(operations=self.operations, n_qubits=self.n_qubits)\n        try:\n            return type(self)(operations=[op.gate.dagger", name="repeated shortcut")
B("C05", C, "            if gate_def.gate_name not in unique_operation_dict:\n                unique_operation_dict[gate_def.gate_name] = gate_def\n            elif", "            if gate_def.gate_name.lower() not in unique_operation_dict:\n                unique_operation_dict[gate_def.gate_name.lower()] = gate_def\n            elif False:\n                pass\n            elif", name="case-insensitive names") if 0 else None
B("C05", C, "    while hasattr(gate, 'wrapped_gate'):\n        gate = gate.wrapped_gate\n    return gate", "    return getattr(gate, 'wrapped_gate', gate)", name="one level of wrapping")
B("C17", D, "            new_counts[new_key] = value + new_counts.get(new_key, 0)\n", "            new_counts[new_key] = max(value, new_counts.get(new_key, 0))\n")
B("C17", D, "        normalize = is_normalized(self.distribution_dict)\n", "        normalize = not is_normalized(self.distribution_dict)\n")
B("C17", D, "            new_key = tuple((key[i] for i in active_qubits))\n", "            new_key = tuple((key[i] for i in sorted(active_qubits)))\n")
B("C17", D, "    return math.isclose(norm, 1)", "    return math.isclose(norm, 1, abs_tol=1e-3)")
B("C17", D, "            measurement_outcome_distribution[key] *= 1.0 / norm\n", "            measurement_outcome_distribution[key] = round(measurement_outcome_distribution[key] / norm, 12)\n")
B("C17", D, "    elif norm == 1:\n        return measurement_outcome_distribution\n", "    elif norm <= 1:\n        return measurement_outcome_distribution\n")
B("C17", D, "            digits = key if ',' not in key else key.rstrip(',').split(',')\n", "            digits = key if ',' not in key else [k for k in key.split(',') if k.strip('0')] or ['0']\n", name="drops zeros")
B("C17", D, "    return all((value >= 0 for value in input_dict.values()))", "    return sum(input_dict.values()) >= 0")
B("C17", D, "    key_length = len(list(input_dict.keys())[0])\n    return all((len(key) == key_length for key in input_dict.keys()))", "    lengths = [len(key) for key in input_dict.keys()]\n    return lengths[0] == lengths[-1]")
B("C11", IO, "        if term_dict['coefficient'].get('imag'):\n            coefficient += 1j * term_dict['coefficient']['imag']\n", "        if abs(term_dict['coefficient'].get('imag', 0)) > 1e-8:\n            coefficient += 1j * term_dict['coefficient']['imag']\n", name="small imaginary dropped")
B("C11", IO, "            operator.append((pauli_op['op'], pauli_op['qubit']))\n", "            operator.append((pauli_op['op'], len(operator) if pauli_op['qubit'] is None else pauli_op['qubit']))\n", name="benign none")  if 0 else None
B("C11", IO, "        if isinstance(term.coefficient, complex):\n", "        if isinstance(term.coefficient, complex) and term.coefficient.imag > 0:\n")
B("C11", IO, "        full_operator += PauliTerm.from_iterable(operator, coefficient)\n", "        if operator or not full_operator.terms:\n            full_operator += PauliTerm.from_iterable(operator, coefficient)\n", name="constant term dropped")
B("C14", CR, "        result = self._run_and_measure(circuit, n_samples)\n        self._n_circuits_executed += 1\n        self._n_jobs_executed += 1\n        return result\n", "        self._n_circuits_executed += 1\n        self._n_jobs_executed += 1\n        return self._run_and_measure(circuit, n_samples)\n", name="count before run")
B("C14", CR, "        if any((n <= 0 for n in samples_per_circuit)):\n", "        if sum(samples_per_circuit) <= 0:\n")
B("C14", CR, "        if any((n <= 0 for n in samples_per_circuit)):\n", "        if max(samples_per_circuit, default=1) <= 0:\n")
B("C14", CR, "        return [self.run_and_measure(circuit, n) for circuit, n in zip(batch, samples_per_circuit)]", "        done = {}\n        results = []\n        for circuit, n in zip(batch, samples_per_circuit):\n            if str(circuit) not in done:\n                done[str(circuit)] = self.run_and_measure(circuit, n)\n            results.append(done[str(circuit)])\n        return results", name="dedupe runs by circuit")
B("C14", CR, "        samples_per_circuit = len(circuits_batch) * [n_samples] if isinstance(n_samples, int) else n_samples\n", "        samples_per_circuit = len(circuits_batch) * [n_samples] if isinstance(n_samples, int) else sorted(n_samples)\n")
B("C15", ES, "        if task.operator.is_constant or task.number_of_shots == 0:\n", "        if task.operator.is_constant or not task.number_of_shots:\n")
B("C15", ES, "            coefficient = sum((term.coefficient for term in task.operator.terms))\n", "            coefficient = sum((term.coefficient for term in task.operator.terms if term.coefficient.real > 0))\n")
B("C15", ES, "zip(measured_expectation_values_list, indices_to_measure)", "zip(measured_expectation_values_list, sorted(indices_to_measure, key=lambda i: estimation_tasks[i].number_of_shots))")
B("C15", ES, "        else:\n            coefficient = 0.0\n        expectation", "        else:\n            coefficient = sum((term.coefficient for term in task.operator.terms if term.is_constant))\n        expectation")
B("C15", ES, "for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps)]", "for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps * len(estimation_tasks))]")
B("C16", E, "            circuit += time_evolution_for_term(term, time / n_steps)\n", "            if abs(term.coefficient) > 1e-06:\n                circuit += time_evolution_for_term(term, time / n_steps)\n")
B("C16", E, "    qubit_indices = sorted(term.qubits)\n", "    qubit_indices = list(term.qubits)\n")
B("C16", E, "            basis_change += RX(np.pi / 2)(qubit_id)\n", "            basis_change += RX(np.pi / 2 if i else -np.pi / 2)(qubit_id)\n")
B("C16", E, "            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)\n", "            central_gate = RZ(2 * time * term.coefficient.real % (2 * np.pi))(qubit_id)\n")
B("C16", E, "        if term_1.coefficient == 0:\n", "        if term_1.coefficient == 0 or term_1.is_constant:\n", name="maybe benign: constants have zero derivative") if 0 else None
B("C16", E, "                output += time_evolution_for_term(term_2, (time + shift) / n_steps if i == j else time / n_steps)\n", "                output += time_evolution_for_term(term_2, (time + shift) / n_steps if term_1 is term_2 or term_1 == term_2 else time / n_steps)\n", name="shift equal terms")
B("C16", E, "(repeated_circuit if i != position else different_circuit)", "(repeated_circuit if i <= position - 1 else different_circuit)")
B("C12", W, "            if not np.isclose(probs_of_ground_entries, 1.0):\n", "            if not np.isclose(np.sqrt(probs_of_ground_entries), 1.0, atol=1e-4):\n")
B("C12", W, "            if probs_of_ground_entries > 1.0:\n", "            if np.max(np.abs(numbers) ** 2, initial=0) > 1.0:\n")
B("C12", W, "        old_val = copy(self._amplitude_vector[idx])\n", "        old_val = self._amplitude_vector[idx]\n")
B("C12", W, "        except ValueError:\n            self._amplitude_vector[idx] = old_val\n", "        except ValueError:\n            self._amplitude_vector[0] = old_val\n") 
B("C12", W, "            amplitude = 1 / np.sqrt(counter)\n", "            amplitude = 1 / np.sqrt(n_qubits if hamming_weight == 1 or hamming_weight == n_qubits - 1 else counter)\n", name="benign special") if 0 else None
B("C12", W, "                if not _most_significant_set_bit(current_value) <= n_qubits:\n                    break\n                indices.append(current_value)\n                counter += 1\n", "                counter += 1\n                if not _most_significant_set_bit(current_value) <= n_qubits:\n                    break\n                indices.append(current_value)\n")
B("C12", W, "        if not self.free_symbols:\n            return self\n        assert", "        if not self.free_symbols & set(symbol_map):\n            return self\n        assert", name="benign-ish") if 0 else None

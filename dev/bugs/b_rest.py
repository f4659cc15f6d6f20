S = "circuits/_serde.py"; GN = "circuits/_generators.py"; IT = "circuits/_itertools.py"; OP = "circuits/_operations.py"
WS = "api/wavefunction_simulator.py"; CR = "api/circuit_runner.py"; TR = "runners/trackers.py"; WF = "wavefunction.py"
P = "operators/_pauli_operators.py"; IO = "operators/_io.py"; UT = "operators/_utils.py"
SP = "operators/_openfermion_utils/sparse_tools.py"; OU = "operators/_openfermion_utils/operator_utils.py"
EV = "measurements/expectation_values.py"; ME = "measurements/measurements.py"; PA = "measurements/parities.py"
MD = "distributions/_measurement_outcome_distribution.py"; MM = "distributions/mmd.py"
CL = "distributions/clipped_negative_log_likelihood.py"; JS = "distributions/jensen_shannon_divergence.py"
ES = "estimation/_estimation.py"; E_ = "evolution.py"; DE = "decompositions/_decomposition.py"; OD = "decompositions/_orquestra_decompositions.py"
SO = "circuits/symbolic/_sorting.py"; SX = "circuits/symbolic/sympy_expressions.py"; TL = "circuits/symbolic/translations.py"
X = "utils.py"; LA = "circuits/layouts.py"
# C05
B("C05", S, "names = sorted(symbol_names, key=len, reverse=True)", "names = list(symbol_names)")
B("C05", S, "'num_control_qubits': gate.num_control_qubits}", "'num_control_qubits': gate.num_qubits - 1}")
B("C05", S, "'exponent': gate.exponent}", "'exponent': int(gate.exponent)}")
B("C05", S, "if 'wrapped_gate' not in dict_ and any((gate_def", "if any((gate_def")
B("C05", S, "    if 'wrapped_gate' not in dict_ and any((gate_def.gate_name == dict_['name'] for gate_def in custom_gate_defs)):\n        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)\n", "")
B("C05", S, "for op_dict in dict_.get('operations', [])], n_qubits=dict_['n_qubits'])", "for op_dict in dict_.get('operations', [])], n_qubits=dict_['n_qubits'] if 'custom_gate_definitions' in dict_ else None)")
B("C05", S, "params_ordering=tuple(symbols))", "params_ordering=tuple(sorted(symbols, key=str)))")
B("C05", S, "def serialize_expr(expr: sympy.Expr):\n    return str(expr)", "def serialize_expr(expr: sympy.Expr):\n    return str(round(expr, 12)) if isinstance(expr, float) else str(expr)")
B("C05", S, "'qubit_indices': list(gate_operation.qubit_indices)}", "'qubit_indices': sorted(gate_operation.qubit_indices)}")
B("C05", S, "    if _gates.gate_is_parametric(gate_ref, dict_.get('params')):\n", "    if _gates.gate_is_parametric(gate_ref, dict_.get('free_symbols')):\n")
B("C05", S, "    elif dict_['name'].endswith(_gates.DAGGER_GATE_NAME):", "    elif dict_['name'].startswith(_gates.DAGGER_GATE_NAME):")
B("C05", S, "matrix=_matrix_from_json(dict_['matrix'], dict_.get('params_ordering', []))", "matrix=_matrix_from_json(dict_['matrix'], [])")
B("C05", S, "return [[serialize_expr(element) for element in matrix.row(row_i)] for row_i in range(matrix.shape[0])]", "return [[serialize_expr(element) for element in matrix.col(row_i)] for row_i in range(matrix.shape[0])]")
# C06
B("C06", OP, "return parameter.subs(symbols_map, simultaneous=True)", "for symbol, value in symbols_map.items():\n        parameter = parameter.subs(symbol, value)\n    return parameter")
B("C06", OP, "return symbols_map.get(parameter, parameter)", "return symbols_map.get(parameter) or parameter")
B("C06", OP, "symbols = set((symbol for param in parameters if isinstance(param, sympy.Expr)", "symbols = set((symbol for param in parameters if isinstance(param, sympy.Symbol)")
# C08
B("C08", GN, "for qubit, parameter in zip(unique_qubit_idx, parameters):", "for qubit, parameter in zip(qubit_indices, parameters):")
B("C08", GN, "qubit_index = circuit.n_qubits + ancilla_qubit_i", "qubit_index = extended_circuit.n_qubits + ancilla_qubit_i")
B("C08", GN, "        for qubit in unique_qubit_idx:\n            circuit += gate_factory(qubit)\n", "        for qubit in range(len(unique_qubit_idx)):\n            circuit += gate_factory(qubit)\n")
B("C08", GN, "    circuit = Circuit()\n    return apply", "    circuit = Circuit(n_qubits=number_of_qubits + 1)\n    return apply")
# C13
B("C13", IT, "multiplicities = -(-n_samples // max_sample_size)", "multiplicities = n_samples // max_sample_size + 1")
B("C13", IT, "max(samples_chunk)) for", "samples_chunk[0]) for")
B("C13", IT, "    for bitstring, count in second.items():\n        result[bitstring] += count\n    return dict(result)", "    for bitstring, count in second.items():\n        if bitstring in result:\n            result[bitstring] += count\n    return dict(result)")
B("C13", IT, "    for bitstring, count in second.items():\n        result[bitstring] += count\n", "    result.update({k: v for k, v in second.items()} if not result else second)\n    for bitstring in set(first) - set(second):\n        result[bitstring] = first[bitstring]\n")
B("C13", IT, "    return [sum(islice(bitstrings_it, multiplicity), start=[]) for multiplicity in multiplicities]", "    return [sum(sorted(islice(bitstrings_it, multiplicity), key=len), start=[]) for multiplicity in multiplicities]")
B("C13", IT, "return [reduce(_combine_measurements, islice(measurements_it, multiplicity)) for multiplicity in multiplicities]", "return [reduce(_combine_measurements, all_measurements[i * multiplicity:(i + 1) * multiplicity]) for i, multiplicity in enumerate(multiplicities)]")
B("C13", IT, "new_circuits = [circuit for circuit, multi in zip(circuits, multiplicities) for _ in range(multi)]", "new_circuits = [circuit for _ in range(max(multiplicities)) for circuit, multi in zip(circuits, multiplicities) if _ < multi]")
B("C13", IT, "(multiplicities - 1) * (max_sample_size,) + (n_samples % max_sample_size,)", "multiplicities * (n_samples // multiplicities,)")
B("C13", IT, "    if max_batch_size <= 0:", "    if max_batch_size < 0:")
B("C13", X, "result = [np.floor(value * scale_factor) for value in values]", "result = [np.round(value * scale_factor) for value in values]")
B("C13", X, "    for index in range(int(round(total - sum(result)))):\n        result[indexes_sorted_by_remainder[index]] += 1\n", "    result[indexes_sorted_by_remainder[0]] += int(round(total - sum(result)))\n")
B("C13", X, "np.argsort(remainders)[::-1]", "np.argsort(remainders)")
B("C13", ME, "if number_of_samples - len(bitstring_samples) > 0:", "if number_of_samples - len(bitstring_samples) > 1:")
B("C13", ME, "distribution_dict[sample] = 0\n", "distribution_dict[bitstring] = 0\n")
B("C13", ME, "                correct_samples[sample] = bitstring_counts[bitstring]\n", "")
B("C13", ME, "if correct_samples[sample] > bitstring_counts[bitstring]:", "if correct_samples[sample] > bitstring_counts[bitstring] + 1:")
# C12
B("C12", WF, "        except ValueError:\n            self._amplitude_vector[idx] = old_val\n            raise ValueError('This assignment", "        except ValueError:\n            raise ValueError('This assignment")
B("C12", WF, "old_val = copy(self._amplitude_vector[idx])", "old_val = self._amplitude_vector[idx]")
B("C12", WF, "if bin(len(amplitude_vector)).count('1') != 1:", "if len(amplitude_vector) % 2 != 0 and len(amplitude_vector) != 1:")
B("C12", WF, "            if not np.isclose(probs_of_ground_entries, 1.0):", "            if probs_of_ground_entries > 1.0 and not np.isclose(probs_of_ground_entries, 1.0):")
B("C12", WF, "self._amplitude_vector = np.array(amplitude_vector, dtype=complex).flatten()", "self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex).flatten() if np.ndim(amplitude_vector) > 1 else np.asarray(amplitude_vector, dtype=complex)")
B("C12", WF, "return type(self)(result)\n", "bound = copy(self)\n            bound._amplitude_vector = result\n            return bound\n")
B("C12", WF, "result = self._amplitude_vector.subs(symbol_map, simultaneous=True)", "result = self._amplitude_vector.subs(symbol_map)")
B("C12", WF, "if not _most_significant_set_bit(current_value) <= n_qubits:", "if not _most_significant_set_bit(current_value) < n_qubits:")
B("C12", WF, "        if isinstance(arr, np.ndarray) or (isinstance(arr, Matrix) and (not arr.free_symbols)):\n", "        if isinstance(arr, np.ndarray):\n")
B("C12", WF, "return np.abs(self.amplitudes) ** 2", "return np.abs(self.amplitudes ** 2).round(12)")
B("C12", WF, ".transpose(*reversed(range(num_bits)))", ".transpose(*np.roll(range(num_bits), 1))")
B("C12", WF, "convert_array_to_dict(wavefunction.amplitudes)", "convert_array_to_dict(np.real_if_close(wavefunction.amplitudes))")
# C04
B("C04", WF, "format(i, '0' + str(self.n_qubits) + 'b')[::-1] if self", "format(i, '0' + str(self.n_qubits) + 'b') if self")
B("C04", WF, "        samples = convert_bitstrings_to_tuples(string_samples)\n", "        samples = [tuple(map(int, s)) for s in string_samples]\n")
B("C04", WF, "    if len(wavefunction) < n_samples:\n", "    if len(wavefunction) <= n_samples:\n", name="boundary (equivalent)")
B("C04", X, "measurement = tuple((int(bit) for bit in bitstring[::-1]))", "measurement = tuple((int(bit) for bit in bitstring))")
B("C04", X, "return ''.join(map(str, tup))", "return ''.join(map(str, reversed(tup)))")
B("C04", MD, "keys = product([0, 1], repeat=int(np.log2(len(prob_distribution))))", "keys = (k[::-1] for k in product([0, 1], repeat=int(np.log2(len(prob_distribution)))))")
# C03
B("C03", P, "ord('X') + ord('Z'): 'Y'}", "ord('X') + ord('Z'): 'Y', ord('I') + ord('Z'): 'Y'}")
B("C03", P, "'ZX': 1j,", "'ZX': -1j,")
B("C03", P, "    if power % 2 == 1:\n        return pauli_rep * _efficient_exponentiation(pauli_rep, power - 1)\n", "    if power == 1:\n        return pauli_rep\n")
B("C03", P, "return self.copy(self.coefficient * complex(other))", "return self.copy(self.coefficient * (other.real if isinstance(other, complex) and abs(other.imag) < 1e-06 else complex(other)))")
B("C03", P, "        return other + -1.0 * self\n\n    def _multiply", "        return self + -1.0 * other\n\n    def _multiply")
B("C03", P, "result_coeff *= COEFF_MAP[self[index] + op]", "result_coeff *= COEFF_MAP[op + self[index]]")
B("C03", P, "            return (PauliSum([self]) * other).simplify()", "            return (other * PauliSum([self])).simplify()")
B("C03", P, "return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and", "return np.allclose(self.coefficient, cast_other.coefficient) and")
B("C03", P, "(np.allclose(self.coefficient, 0) or self.operations == cast_other.operations)", "self.operations == cast_other.operations")
B("C03", P, "            candidates.pop(match)\n", "")
B("C03", P, "        if len(self) != len(other):\n            return False\n", "")
B("C03", P, "match = next((i for i, t in enumerate(candidates) if t == term), None)\n            if match is None:", "match = next((i for i, t in enumerate(candidates) if t == term), None)\n            if not match:")
B("C03", P, "            if len(term_list) == 1 and (not np.isclose(first_term.coefficient, 0.0)):\n                terms.append(first_term)\n            else:\n                coeff = sum((t.coefficient for t in term_list))",
  "            if len(term_list) == 1 and (not np.isclose(first_term.coefficient, 0.0)):\n                terms.append(first_term)\n            else:\n                coeff = sum({t.coefficient for t in term_list})", name="set of coefficients")
B("C03", P, "            key = term.operations\n            if key in like_terms", "            key = tuple(term.operations)\n            if key in like_terms", name="order-sensitive key")
B("C03", P, "            key = term.operations\n            if key in like_terms", "            key = hash(term)\n            if key in like_terms")
B("C03", P, "        return self * (1.0 / other)\n\n    def __pow__(self, power: int) -> 'PauliSum':", "        return self * (1.0 / abs(other))\n\n    def __pow__(self, power: int) -> 'PauliSum':")
B("C03", P, "for left_term, right_term in product(self.terms, other_terms)", "for right_term, left_term in product(self.terms, other_terms)")
B("C03", P, "return sum([term.coefficient for term in self.terms if term.is_constant])", "return next((term.coefficient for term in self.terms if term.is_constant), 0)")
B("C03", P, "        return 0 if self.is_constant else max(self.qubits) + 1\n\nclass PauliSum", "        return len(self.qubits)\n\nclass PauliSum")
B("C03", P, "if new_coefficient is None:\n            new_coefficient = self.coefficient", "new_coefficient = new_coefficient or self.coefficient")
# C09
B("C09", SP, "for qubit_num, operator_str in sorted(qubit_term.operations):", "for qubit_num, operator_str in qubit_term.operations:")
B("C09", SP, "column, row = sparse_matrix.nonzero()", "row, column = sparse_matrix.nonzero()")
B("C09", SP, "if tensor_factor < n_qubits or not qubit_term:", "if tensor_factor < n_qubits - 1 or not qubit_term:")
B("C09", SP, "    if not values_list:\n        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)\n", "")
B("C09", SP, "expectation = numpy.dot(numpy.conjugate(state), operator * state)\n", "expectation = numpy.dot(state, operator * state)\n")
B("C09", OU, "conjugate_operator += term.copy(term.coefficient.conjugate())", "conjugate_operator += term.copy(term.coefficient.conjugate()) if len(term) % 2 == 0 else term.copy(term.coefficient)")
B("C09", OU, "conjugate_operator = operator.T.conj()", "conjugate_operator = operator.conj()")
B("C09", OU, "discrepancy = max(abs(difference.data))", "discrepancy = max(difference.data.real)")
B("C09", UT, "new_qubit_num = n_qubits - 1 - qubit_num", "new_qubit_num = qubit_operator.n_qubits - 1 - qubit_num")
B("C09", UT, "                    if j_str[index] == 0:\n                        val_nz = val_nz * 1j\n                    if j_str[index] == 1:\n                        val_nz = val_nz * -1j", "                    if j_str[index] == 0:\n                        val_nz = val_nz * -1j\n                    if j_str[index] == 1:\n                        val_nz = val_nz * 1j")
B("C09", UT, "if label_vec[index] in [1, 2]:", "if label_vec[index] in [1, 3]:")
B("C09", UT, "        return tr / 2 ** n", "        return tr.real / 2 ** n if abs(tr.imag) < abs(tr.real) else tr / 2 ** n")
B("C09", UT, "        qubit_op = reverse_qubit_order(qubit_op, n_qubits=n_qubits)", "        qubit_op = reverse_qubit_order(qubit_op)")
B("C09", UT, "reversed_op += PauliTerm(new_term, term.coefficient)", "reversed_op += PauliTerm(new_term, term.coefficient.real)")
# C10
B("C10", ME, "correlations[i, i] = first_term.coefficient ** 2", "correlations[i, i] = abs(first_term.coefficient) ** 2")
B("C10", ME, "marked_qubits = first_term.qubits.symmetric_difference(second_term.qubits)", "marked_qubits = first_term.qubits.union(second_term.qubits)")
B("C10", ME, "denominator = num_measurements - 1 if use_bessel_correction else num_measurements", "denominator = num_measurements - 1 if use_bessel_correction and num_measurements > 1 else num_measurements")
B("C10", ME, "num_measurements = sum(bitstring_frequencies.values())", "num_measurements = len(bitstring_frequencies)")
B("C10", ME, "distribution[bitstring] = counts[bitstring] / num_measurements", "distribution[bitstring] = round(counts[bitstring] / num_measurements, 8)")
B("C10", ME, "expectation_values[:, np.newaxis] * expectation_values[np.newaxis, :]", "expectation_values[:, np.newaxis] * np.conj(expectation_values)[np.newaxis, :]")
B("C10", ME, "self.bitstrings += [tuple(measurement)] * counts[bitstring]", "self.bitstrings = [tuple(measurement)] * counts[bitstring] + self.bitstrings")
B("C10", ME, "        if bitstrings is None:\n            self.bitstrings = []\n        else:\n            self.bitstrings = bitstrings", "        if not bitstrings:\n            self.bitstrings = []\n        else:\n            self.bitstrings = sorted(bitstrings)")
B("C10", PA, "return (bitstring_subset.sum(axis=1) + 1) % 2", "return (bitstring_subset.sum(axis=0) + 1) % 2")
B("C10", PA, "if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1:", "if bitstring[qubit_index] == '1':")
B("C10", EV, "precision = 1.0 / np.sqrt(N)", "precision = 1.0 / N")
B("C10", EV, "        if N == 0:\n            raise ValueError('There must be at least one sample for each operator')\n", "        if N == 0:\n            continue\n")
# C11
B("C11", IO, "coefficient += 1j * term_dict['coefficient']['imag']", "coefficient += 1j * abs(term_dict['coefficient']['imag'])")
B("C11", IO, "        if term_dict['coefficient'].get('imag'):\n", "        if term_dict['coefficient'].get('imag', 0) > 0:\n")
B("C11", IO, "full_operator += PauliTerm.from_iterable(operator, coefficient)", "if coefficient:\n            full_operator += PauliTerm.from_iterable(operator, coefficient)")
B("C11", IO, "    for operator_dict in data['operators']:\n        operator_set.append(convert_dict_to_op(operator_dict))", "    for operator_dict in data['operators']:\n        if operator_dict['terms']:\n            operator_set.append(convert_dict_to_op(operator_dict))")
B("C11", IO, "        if isinstance(term.coefficient, complex):\n            term_dict", "        if type(term.coefficient) is complex:\n            term_dict")
B("C11", IO, "for pauli in sorted(term.operations):", "for pauli in term.operations:")
B("C11", P, "return f'{self.coefficient}*{'*'.join(term_strs)}'", "return f'{self.coefficient:.10g}*{'*'.join(term_strs)}'")
B("C11", P, "'(?<![eE])\\\\+(?![^(]*\\\\))'", "'\\\\+(?![^(]*\\\\))'")
B("C11", P, "match = re.match('([XYZI])([0-9]+)$', op_str, re.I)", "match = re.match('([XYZI])([0-9])', op_str, re.I)")
B("C11", ME, "            bitstrings.append(tuple(bitstring))", "            bitstrings.append(bitstring)")
B("C11", EV, "        if self.correlations is not None:\n", "        if self.correlations:\n")
B("C11", EV, "        if dictionary.get('estimator_covariances') is not None:", "        if dictionary.get('correlations') is not None:")
B("C11", PA, "        if data.get('correlations') is not None:", "        if data.get('correlations'):")
B("C11", X, "    if dictionary.get('imag'):\n", "    if any(dictionary.get('imag', [])):\n")
B("C11", X, "if np.iscomplexobj(array):", "if np.any(np.iscomplex(array)):")
B("C11", X, "    frame_meas = convert_dict_to_array(data['frame_meas']) if 'frame_meas' in data else None", "    frame_meas = convert_dict_to_array(data['frame_meas']) if data.get('frame_meas') is not None else np.array([])")
B("C11", X, "return super_eq and self.precision == getattr(other, 'precision', None)", "return super_eq")
B("C11", X, "            return cls(value, precision)\n", "            return cls(value, precision or None)\n")
B("C11", LA, "tuples = [tuple(x) for x in data['connectivity']]", "tuples = [tuple(sorted(x)) for x in data['connectivity']]")
B("C11", X, "with open(path_like, mode, encoding=encoding if 'b' not in mode else None) as f:", "with open(path_like, mode) as f:")
B("C11", X, "if isinstance(path_like, (str, bytes, os.PathLike)):", "if isinstance(path_like, (str, os.PathLike)):")
# C14
B("C14", CR, "        result = self._run_and_measure(circuit, n_samples)\n        self._n_circuits_executed += 1\n", "        self._n_circuits_executed += 1\n        result = self._run_and_measure(circuit, n_samples)\n")
B("C14", CR, "        if any((n <= 0 for n in samples_per_circuit)):", "        if all((n <= 0 for n in samples_per_circuit)):")
B("C14", CR, "        if any((n <= 0 for n in samples_per_circuit)):", "        if any((n < 0 for n in samples_per_circuit)):")
B("C14", CR, "        if len(samples_per_circuit) != len(circuits_batch):", "        if len(samples_per_circuit) < len(circuits_batch):")
B("C14", CR, "        if n_samples <= 0:\n            raise ValueError(f'Number of samples has to be positive, got {n_samples}')\n", "")
B("C14", TR, "        self._n_circuits_executed += len(circuits)\n", "        self._n_circuits_executed += 1\n")
B("C14", TR, "        self._n_circuits_executed += len(circuits)\n        self._n_jobs_executed += 1\n        for circuit", "        self._n_circuits_executed += len(circuits)\n        self._n_jobs_executed += len(circuits)\n        for circuit")
B("C14", TR, "'number_of_shots': len(measurement.bitstrings)}", "'number_of_shots': len(measurement.get_counts())}")
B("C14", TR, "            data = {'raw-data': self.raw_data}\n            f.write(json.dumps(data))\n        self.raw_data = []", "            data = {'raw-data': self.raw_data}\n            f.write(json.dumps(data))")
B("C14", TR, "[list(map(int, list(bitstring))) for bitstring in measurement.bitstrings]", "[list(map(int, list(bitstring))) for bitstring in set(measurement.bitstrings)]")
# C15
B("C15", ES, "if task.operator.is_constant or task.number_of_shots == 0:", "if task.operator.is_constant or not task.number_of_shots:")
B("C15", ES, "    for ex_val, final_index in zip(measured_expectation_values_list, indices_to_measure):\n        full_expectation_values[final_index] = ex_val\n", "    for final_index, ex_val in enumerate(measured_expectation_values_list):\n        full_expectation_values[indices_to_measure[-1 - final_index]] = ex_val\n")
B("C15", ES, "coefficient = sum((term.coefficient for term in task.operator.terms))", "coefficient = task.operator.terms[0].coefficient")
B("C15", ES, "        if task.operator.is_constant:\n            coefficient =", "        if task.operator.is_constant and task.number_of_shots != 0:\n            coefficient =")
B("C15", ES, "circuit=estimation_task.circuit.bind(symbols_map), number_of_shots=estimation_task.number_of_shots)", "circuit=estimation_task.circuit.bind(symbols_map), number_of_shots=estimation_task.number_of_shots or 1)")
B("C15", ES, "(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure", "(e.circuit, e.operator, e.number_of_shots) for e in sorted(estimation_tasks_to_measure, key=lambda t: t.number_of_shots)")
B("C15", ES, "return [ExpectationValues(np.asarray([val])) for val in expectation_values_list]", "return [ExpectationValues(np.asarray([val.real])) for val in expectation_values_list]")
B("C15", ES, "expectation_values_to_real(measurements.get_expectation_values(frame_operator))", "measurements.get_expectation_values(frame_operator)")
# C16
B("C16", E_, "basis_change += RX(np.pi / 2)(qubit_id)", "basis_change += RX(-np.pi / 2)(qubit_id)")
B("C16", E_, "        if i == len(term.operations) - 1:\n            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)", "        if i == len(term.operations) - 1:\n            central_gate = RZ(2 * time * abs(term.coefficient))(qubit_id)")
B("C16", E_, "cnot_gates += CNOT(qubit_id, qubit_indices[i + 1])", "cnot_gates += CNOT(qubit_id, qubit_id + 1)")
B("C16", E_, "    if abs(term.coefficient.imag) > 1e-09:\n", "    if term.coefficient.imag > 1e-09:\n")
B("C16", E_, "circuit = basis_change + all_z_rotation + basis_change.inverse()", "circuit = basis_change + all_z_rotation + basis_change")
B("C16", E_, "        for term in hamiltonian.terms:\n            circuit +=", "        for term in sorted(hamiltonian.terms, key=len):\n            circuit +=")
B("C16", E_, "r = term_1.coefficient.real / n_steps", "r = term_1.coefficient.real")
B("C16", E_, "(time + shift) / n_steps if i == j else time / n_steps)", "(time + shift) / n_steps if term_1 == term_2 else time / n_steps)")
B("C16", E_, "shift = factor * (np.pi / (4.0 * r))", "shift = factor * (np.pi / (4.0 * abs(r)))")
B("C16", E_, "time_evolution(hamiltonian, time / n_steps, method='Trotter', n_steps=1)", "time_evolution(hamiltonian, time, method='Trotter', n_steps=n_steps)")
# C17
B("C17", MD, "new_counts[new_key] = value + new_counts.get(new_key, 0)", "new_counts[new_key] = max(value, new_counts.get(new_key, 0))")
B("C17", MD, "new_key = tuple((key[i] for i in active_qubits))", "new_key = tuple((key[i] for i in sorted(active_qubits)))")
B("C17", MD, "return all((value >= 0 for value in input_dict.values()))", "return sum(input_dict.values()) >= 0")
B("C17", MD, "key_length = len(list(input_dict.keys())[0])\n    return all((len(key) == key_length", "key_length = len(list(input_dict.keys())[0])\n    return all((len(key) <= key_length")
B("C17", MD, "    elif norm == 1:\n        return measurement_outcome_distribution\n", "    elif abs(norm - 1) < 0.001:\n        return measurement_outcome_distribution\n")
B("C17", MD, "measurement_outcome_distribution[key] *= 1.0 / norm", "measurement_outcome_distribution[key] = round(measurement_outcome_distribution[key] / norm, 10)")
B("C17", MD, "+ (',' if len(key) == 1 else '') if isinstance", "if isinstance")
B("C17", MD, "return not input_dict == {} and _is_non_negative(input_dict)", "return _is_non_negative(input_dict)")
B("C17", CL, "value += target_bitstring_value * math.log(max(epsilon, measured_bitstring_value))", "value += target_bitstring_value * math.log(epsilon + measured_bitstring_value)")
B("C17", CL, "all_keys = set(target_keys).union(measured_keys)", "all_keys = set(target_keys).intersection(measured_keys)")
B("C17", JS, "compute_clipped_negative_log_likelihood(measured_distribution, target_distribution, distance_measure_parameters) / 2", "compute_clipped_negative_log_likelihood(measured_distribution, measured_distribution, distance_measure_parameters) / 2")
B("C17", MM, "diff = np.array(target_values) - np.array(measured_values)\n    return diff.dot(kernel_matrix.dot(diff))", "diff = np.array(target_values) - np.array(measured_values)\n    return np.array(target_values).dot(kernel_matrix.dot(diff))")
B("C17", MM, "base = max(2, 1 + max((digit for item in all_keys for digit in item)))", "base = 2")
B("C17", MM, "exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2\n    kernel", "exponent = x_i[:, None] - y_j[None, :] ** 2\n    kernel")
# C18
B("C18", OD, "gate_decomposition = [RZ(phi), RY(theta), RZ(lambda_)]", "gate_decomposition = [RZ(lambda_), RY(theta), RZ(phi)]")
B("C18", OD, "return gate.controlled(operation.gate.num_control_qubits) if", "return gate.controlled(1) if")
B("C18", OD, "(isinstance(operation.gate, ControlledGate) and operation.gate.wrapped_gate.name == 'U3'))", "(hasattr(operation.gate, 'wrapped_gate') and operation.gate.wrapped_gate.name == 'U3'))")
B("C18", OD, "decomposition_rules), n_qubits=circuit.n_qubits)", "decomposition_rules))")
B("C18", DE, "    current_rule, *remaining_rules = decomposition_rules\n", "    *remaining_rules, current_rule = decomposition_rules\n")
B("C18", DE, "for decomposed_op in decompose_operation(op, remaining_rules)]", "for decomposed_op in (decompose_operation(op, remaining_rules) if op is operation else [op])]")
# C19
B("C19", SX, "return len(args) == 2 and isinstance(args[1], sympy.Pow) and (args[1].args[1] == -1)", "return len(args) == 2 and isinstance(args[1], sympy.Pow) and (args[1].args[1] < 0)")
B("C19", SX, "return len(args) == 2 and isinstance(args[1], sympy.Mul) and (args[1].args[0] == -1)", "return isinstance(args[1], sympy.Mul) and (args[1].args[0] == -1)")
B("C19", SX, "return len(args) == 2 and isinstance(args[1], sympy.Mul) and (args[1].args[0] == -1)", "return len(args) == 2 and isinstance(args[1], sympy.Mul) and (args[1].args[0] < 0)", name="neg coefficient (equivalent)")
B("C19", SX, "    elif power.args[1] == 0.5:\n", "    elif abs(power.args[1]) == 0.5:\n")
B("C19", SX, "    if isinstance(function, AppliedUndef):\n        raise NotImplementedError(f'Undefined function {function} is not supported')\n", "")
B("C19", SX, "def native_float_from_sympy_rational(number: sympy.Rational):\n    return float(number)", "def native_float_from_sympy_rational(number: sympy.Rational):\n    return number.p // number.q if number.q == 1 else round(number.p / number.q, 9)")
B("C19", SX, "'tan': sympy.tan}", "'tan': sympy.tan, 'log': sympy.exp}")
B("C19", SX, "return int(number)", "return float(number)", name="int->float (equivalent numerically)")
B("C19", SO, "return int(text) if text.isdigit() else text", "return int(text) if text.isdigit() and len(text) < 3 else text")
B("C19", SO, "return list(reversed(natural_key(symbol)))", "return natural_key(symbol)")
B("C19", SO, "return (int(index), symbol_weights[name])", "return (index, symbol_weights[name])")
# C20
B("C20", P, "result_ops = self._ops.copy()", "result_ops = self._ops")
B("C20", P, "        for term_list in like_terms.values():\n            first_term = term_list[0]\n", "        for term_list in like_terms.values():\n            term_list.sort(key=lambda t: abs(t.coefficient))\n            first_term = term_list[0]\n", name="sort own list (order change)")
B("C20", P, "                if not np.isclose(coeff, 0.0):\n                    terms.append(term_list[0].copy(new_coefficient=coeff))", "                if not np.isclose(coeff, 0.0):\n                    first_term.coefficient = coeff\n                    terms.append(first_term)")
B("C20", P, "new_op = PauliSum([term.copy() for term in chain(self.terms, other.terms)])\n        return new_op.simplify()", "self.terms = list(chain(self.terms, other.terms))\n        return self.simplify()")
B("C20", P, "                for op, index in other:", "                for op, index in other:", name="x") if False else None
B("C20", IO, "        dictionary['terms'].append(term_dict)\n    return dictionary", "        dictionary['terms'].append(term_dict)\n        term.coefficient = complex(term.coefficient)\n    return dictionary")
B("C20", EV, "combined_expectation_values = ExpectationValues(np.zeros(0))", "combined_expectation_values = ExpectationValues(np.zeros(0), correlations=None)", name="same")
B("C20", EV, "            if not combined_expectation_values.correlations:\n                combined_expectation_values.correlations = []\n            combined_expectation_values.correlations += expectation_values.correlations", "            if not combined_expectation_values.correlations:\n                combined_expectation_values.correlations = expectation_values.correlations\n            else:\n                combined_expectation_values.correlations += expectation_values.correlations")
B("C20", ME, "        counts = self.get_counts()\n        num_measurements = len(self.bitstrings)\n        distribution = {}", "        self.bitstrings.sort()\n        counts = self.get_counts()\n        num_measurements = len(self.bitstrings)\n        distribution = {}")
B("C20", ME, "distribution = copy.deepcopy(measurement_outcome_distribution.distribution_dict)\n        bitstring_samples = []", "distribution = measurement_outcome_distribution.distribution_dict\n        bitstring_samples = []", name="no deepcopy (benign)")
B("C20", ME, "corrected_leftover_distribution = MeasurementOutcomeDistribution(leftover_distribution.distribution_dict)", "corrected_leftover_distribution = leftover_distribution")
B("C20", MD, "        new_counts: Dict[Union[str, Tuple[int, ...]], float] = {}\n        if max", "        new_counts: Dict[Union[str, Tuple[int, ...]], float] = {}\n        active_qubits.sort()\n        if max")
B("C20", MD, "    res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}\n    for key, value in input_dict.items():\n", "    if all((isinstance(key, tuple) for key in input_dict)):\n        return input_dict\n    res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}\n    for key, value in input_dict.items():\n")
B("C20", WF, "        return np.abs(self.amplitudes) ** 2", "        probs = self.amplitudes\n        probs *= probs.conj()\n        return np.abs(probs)")
B("C20", WF, "    return np.asarray(amplitudes)[ordering]", "    amplitudes[:] = np.asarray(amplitudes)[ordering]\n    return amplitudes")
B("C20", S, "    custom_gate_definitions = circuit.collect_custom_gate_definitions()\n", "    custom_gate_definitions = circuit.collect_custom_gate_definitions()\n    circuit.operations.sort(key=lambda op: max(op.qubit_indices))\n")

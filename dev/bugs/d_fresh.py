P = "operators/_pauli_operators.py"; IO = "operators/_io.py"; UT = "operators/_utils.py"; SP = "operators/_openfermion_utils/sparse_tools.py"; OU = "operators/_openfermion_utils/operator_utils.py"
M = "measurements/measurements.py"; PA = "measurements/parities.py"; EV = "measurements/expectation_values.py"; D = "distributions/_measurement_outcome_distribution.py"
MM = "distributions/mmd.py"; CL = "distributions/clipped_negative_log_likelihood.py"; JS = "distributions/jensen_shannon_divergence.py"
TR = "runners/trackers.py"; CR = "api/circuit_runner.py"; ES = "estimation/_estimation.py"; E = "evolution.py"; GN = "circuits/_generators.py"; LY = "circuits/layouts.py"
S = "circuits/_serde.py"; IT = "circuits/_itertools.py"; SE = "circuits/symbolic/sympy_expressions.py"; SO = "circuits/symbolic/_sorting.py"; TL = "circuits/symbolic/translations.py"; EX = "circuits/symbolic/expressions.py"
OD = "decompositions/_orquestra_decompositions.py"; DE = "decompositions/_decomposition.py"
# ---- C03
B("C03", P, "    if power % 2 == 1:\n        return pauli_rep * _efficient_exponentiation(pauli_rep, power - 1)\n    intermediate_result = _efficient_exponentiation(pauli_rep, power // 2)\n    return intermediate_result * intermediate_result\n",
 "    result = type(pauli_rep).identity()\n    base = pauli_rep\n    while power > 1:\n        if power & 1:\n            result = result * base\n        base = base * base\n        power >>= 1\n    return result\n", name="binary exponentiation stops early")
B("C03", P, "            for op, index in other:\n                if op != 'I':\n                    result_term = result_term._multiply_by_operator(op, index)\n",
 "            if self.qubits.isdisjoint(other.qubits):\n                return PauliTerm({**self._ops, **other._ops}, self.coefficient)\n            for op, index in other:\n                if op != 'I':\n                    result_term = result_term._multiply_by_operator(op, index)\n", name="disjoint fast path loses coefficient")
B("C03", P, "            result_coeff *= COEFF_MAP[self[index] + op]\n", "            result_coeff *= COEFF_MAP[''.join(sorted(self[index] + op))]\n", name="sorted key loses sign")
B("C03", P, "            return (PauliSum([self]) * other).simplify()", "            return PauliSum([cast(PauliTerm, term * self) for term in other.terms]).simplify()", name="term*sum commuted")
B("C03", P, "        return other + -1.0 * self\n\n    def _multiply", "        return -1.0 * (self - other) if other else -1.0 * self\n\n    def _multiply", name="term rsub type for zero")
B("C03", P, "        result = self * (1.0 / other)\n        assert isinstance(result, PauliTerm)\n        return result\n", "        return self.copy(self.coefficient / abs(other))\n", name="term division by modulus")
B("C03", P, "product(self.terms, other_terms)]))\n        return new_paulisum.simplify()", "product(self.terms, other_terms)]))\n        return new_paulisum if len(other_terms) == 1 else new_paulisum.simplify()", name="skip simplify single term: likely benign-ish")
B("C03", P, "            if len(term_list) == 1 and (not np.isclose(first_term.coefficient, 0.0)):\n                terms.append(first_term)\n            else:\n                coeff = sum((t.coefficient for t in term_list))\n                if not np.isclose(coeff, 0.0):\n                    terms.append(term_list[0].copy(new_coefficient=coeff))\n",
 "            coeff = sum((t.coefficient for t in term_list))\n            if not np.isclose(abs(coeff), 0.0, atol=1e-4):\n                terms.append(term_list[0].copy(new_coefficient=coeff))\n", name="coarser zero tolerance")
B("C03", P, "            key = term.operations\n            if key in like_terms:", "            key = hash(term.operations) % 1048576\n            if key in like_terms:", name="hash bucket key")
B("C03", P, "        for term in self.terms:\n            candidates = unmatched_terms.get(term.operations, [])\n            match = next((i for i, t in enumerate(candidates) if t == term), None)\n            if match is None:\n                return False\n            candidates.pop(match)\n        return True\n",
 "        for term in self.terms:\n            candidates = unmatched_terms.get(term.operations, [])\n            if not any(t == term for t in candidates):\n                return False\n        return True\n", name="multiset to set matching")
B("C03", P, "        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and (np.allclose(self.coefficient, 0) or self.operations == cast_other.operations)", "        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and self.qubits == cast_other.qubits", name="eq compares only qubits")
B("C03", P, "        return hash((round(coefficient_real * HASH_PRECISION), round(coefficient_imag * HASH_PRECISION), self.operations))", "        return hash((round(coefficient_real * HASH_PRECISION), round(coefficient_imag * HASH_PRECISION), tuple(self._ops.items())))", name="hash depends on insertion order")
B("C03", P, "        self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}\n        self.coefficient = 1.0 if coefficient is None else coefficient\n", "        self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}\n        self.coefficient = coefficient or 1.0\n", name="zero coefficient becomes one")
B("C03", P, "        return sum([term.coefficient for term in self.terms if term.is_constant])", "        return next((term.coefficient for term in self.terms if term.is_constant), 0)", name="constant term first only")
B("C03", P, "        return self.copy(self.coefficient * complex(other))", "        return self.copy(self.coefficient * (other.real if other.imag < 1e-12 else other))", name="negative imaginary dropped")
B("C03", P, "        new_op = PauliSum([term.copy() for term in chain(self.terms, other.terms)])\n        return new_op.simplify()", "        merged = {term.operations: term for term in self.terms}\n        for term in other.terms:\n            if term.operations in merged:\n                merged[term.operations] = term.copy(merged[term.operations].coefficient + term.coefficient)\n            else:\n                merged[term.operations] = term.copy()\n        return PauliSum(list(merged.values()))", name="dict merge add loses duplicates in self")
# ---- C04
B("C04", D, "keys = product([0, 1], repeat=int(np.log2(len(prob_distribution))))", "keys = (key[::-1] for key in product([0, 1], repeat=int(np.log2(len(prob_distribution)))))")
B("C04", M, "    return int(''.join((str(bit) for bit in bitstring[::-1])), 2)", "    return sum(int(bit) << (len(bitstring) - 1 - i) for i, bit in enumerate(bitstring))")
B("C04", UT, "    n_qubits = wavefunction.amplitudes.shape[0].bit_length() - 1\n    if reverse_operator:\n        qubit_op = reverse_qubit_order(qubit_op, n_qubits=n_qubits)\n", "    n_qubits = wavefunction.amplitudes.shape[0].bit_length() - 1\n    if reverse_operator:\n        qubit_op = reverse_qubit_order(qubit_op)\n")
B("C04", UT, "            new_qubit_num = n_qubits - 1 - qubit_num\n", "            new_qubit_num = qubit_operator.n_qubits - 1 - qubit_num\n")
B("C04", UT, "            if index", "") if 0 else None
# ---- C09
B("C09", SP, "        for qubit_num, operator_str in sorted(qubit_term.operations):\n", "        for qubit_num, operator_str in sorted(qubit_term.operations, key=str):\n", name="sort by string 10<2")
B("C09", SP, "    sparse_operator.eliminate_zeros()\n", "    sparse_operator.data[abs(sparse_operator.data) < 1e-6] = 0\n    sparse_operator.eliminate_zeros()\n", name="prune small elements")
B("C09", SP, "        column, row = sparse_matrix.nonzero()\n", "        row, column = sparse_matrix.nonzero()\n", name="rows/cols swapped")
B("C09", SP, "    if not values_list:\n        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)\n", "    if not values_list:\n        return scipy.sparse.identity(n_hilbert, format='csc', dtype=complex)\n", name="empty sum is identity")
B("C09", SP, "            expectation = numpy.dot(numpy.conjugate(state), operator * state)\n", "            expectation = numpy.vdot(operator * state, state)\n", name="vdot of swapped")
B("C09", OU, "        discrepancy = numpy.amax(abs(difference))\n        return discrepancy < EQ_TOLERANCE\n    else", "        discrepancy = numpy.mean(abs(difference))\n        return discrepancy < EQ_TOLERANCE\n    else")
B("C09", OU, "            conjugate_operator += term.copy(term.coefficient.conjugate())\n", "            conjugate_operator += term if abs(term.coefficient.imag) < 1 else term.copy(term.coefficient.conjugate())\n")
B("C09", UT, "                if label_vec[index] in [1, 2]:\n", "                if label_vec[index] and label_vec[index] != 3 and index < n - (n > 4):\n", name="skip last for n>4")
B("C09", UT, "        output += PauliTerm(f'{coeffs[i]}{string_term}')\n", "        output += PauliTerm(f'{coeffs[i]:.12g}{string_term}')\n", name="coefficient formatted")
B("C09", UT, "        output += PauliTerm(f'{coeffs[i]}{string_term}')\n", "        if abs(np.real(coeffs[i])) > 1e-12:\n            output += PauliTerm(f'{coeffs[i]}{string_term}')\n", name="pure imaginary terms dropped")
# ---- C10
B("C10", M, "    parity = check_parity_of_vector(_convert_bitstrings_to_vector(bitstring_frequencies.keys()), marked_qubits) * 2 - 1\n", "    marked_qubits = sorted(marked_qubits)\n    parity = check_parity_of_vector(_convert_bitstrings_to_vector(bitstring_frequencies.keys())[:, ::-1], marked_qubits) * 2 - 1\n", name="columns reversed")
B("C10", M, "        denominator = num_measurements - 1 if use_bessel_correction else num_measurements\n", "        denominator = len(bitstring_frequencies) - 1 if use_bessel_correction else num_measurements\n", name="bessel over distinct")
B("C10", M, "                correlations[j, i] = correlations[i, j]\n", "                correlations[j, i] = np.conj(correlations[i, j])\n", name="conjugated correlations")
B("C10", M, "            correlations[i, i] = first_term.coefficient ** 2\n", "            correlations[i, i] = first_term.coefficient\n")
B("C10", M, "            distribution[bitstring] = counts[bitstring] / num_measurements\n", "            distribution[bitstring] = round(counts[bitstring] / num_measurements, 10)\n")
B("C10", PA, "    if not marked_qubits:\n        return np.ones(bitstrings_vector.shape[0])\n", "    if not marked_qubits:\n        return np.zeros(bitstrings_vector.shape[0])\n")
B("C10", PA, "    bitstring_subset = bitstrings_vector[:, np.fromiter(marked_qubits, dtype=int)]\n    return (bitstring_subset.sum(axis=1) + 1) % 2\n", "    bitstring_subset = bitstrings_vector[:, np.fromiter(marked_qubits, dtype=int)].astype(bool)\n    return 1 - bitstring_subset.any(axis=1)\n", name="any instead of parity")
B("C10", PA, "            equal_parities = np.abs(parity1 - parity2)\n", "            equal_parities = np.clip(parity1 - parity2, 0, None)\n")
B("C10", PA, "        false_parity_count: int = ((1 - parity) * bitstring_counts).sum()\n", "        false_parity_count: int = (1 - parity).sum() * bitstring_counts.max()\n")
B("C10", EV, "        if N >= 100 and p >= 0.1 and (p <= 0.9):\n", "        if N >= 100 or (p >= 0.1 and p <= 0.9):\n")
B("C10", EV, "            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)\n", "            precision = 2.0 * np.sqrt(p * (1.0 - p) / (N - 1))\n")
B("C10", EV, "        if expectation_values.estimator_covariances:\n            if not combined_expectation_values.estimator_covariances:\n                combined_expectation_values.estimator_covariances = []\n            combined_expectation_values.estimator_covariances += expectation_values.estimator_covariances\n", "        if expectation_values.estimator_covariances:\n            combined_expectation_values.estimator_covariances = list(expectation_values.estimator_covariances)\n", name="last covariances only")
# ---- C11
B("C11", IO, "        if term_dict['coefficient'].get('imag'):\n            coefficient += 1j * term_dict['coefficient']['imag']\n", "        if term_dict['coefficient'].get('imag', 0) > 0:\n            coefficient += 1j * term_dict['coefficient']['imag']\n", name="negative imag dropped on load")
B("C11", IO, "            term_dict['coefficient'] = {'real': term.coefficient.real, 'imag': term.coefficient.imag}\n", "            term_dict['coefficient'] = {'real': abs(term.coefficient), 'imag': 0} if term.coefficient.imag == 0 else {'real': term.coefficient.real, 'imag': term.coefficient.imag}\n")
B("C11", IO, "        full_operator += PauliTerm.from_iterable(operator, coefficient)\n    return full_operator\n", "        if coefficient:\n            full_operator = full_operator + PauliTerm.from_iterable(operator[:2 ** 6], coefficient)\n    return full_operator\n")
B("C11", IO, "        for pauli in sorted(term.operations):\n", "        for pauli in sorted(term.operations, key=lambda op: op[1]):\n", name="pauli strings sorted by letter")
B("C11", P, "        term_strs = [f'{self[index]}{index}' for index in self._ops]\n", "        term_strs = [f'{op}{index}' for index, op in enumerate(self._ops.values())]\n", name="repr enumerates")
B("C11", P, "        return f'{self.coefficient}*{'*'.join(term_strs)}'\n", "        return f'{self.coefficient:g}*{'*'.join(term_strs)}'\n", name="repr loses precision")
B("C11", P, "        return ' + '.join([str(term) for term in self.terms])\n", "        return ' + '.join(sorted({str(term) for term in self.terms}))\n", name="repr loses duplicates")
B("C11", EV, "        if dictionary.get('estimator_covariances') is not None:\n", "        if dictionary.get('correlations') is not None and dictionary.get('estimator_covariances') is not None:\n")
B("C11", PA, "        if self.correlations is not None:\n            data['correlations'] = [convert_array_to_dict(arr) for arr in self.correlations]\n", "        if self.correlations:\n            data['correlations'] = [convert_array_to_dict(arr) for arr in self.correlations]\n", name="empty correlations lost")
B("C11", M, "        for bitstring in data['bitstrings']:\n            bitstrings.append(tuple(bitstring))\n        return cls(bitstrings=bitstrings)\n", "        for bitstring, count in data['counts'].items():\n            bitstrings.extend([tuple(map(int, bitstring))] * count)\n        return cls(bitstrings=bitstrings)\n", name="load from counts loses order")
B("C11", LY, "        layers = [[tuple(x) for x in layer] for layer in data['layers']]\n", "        layers = [[tuple(sorted(x)) for x in layer] for layer in data['layers']]\n")
B("C11", LY, "        tuples = [tuple(x) for x in data['connectivity']]\n", "        tuples = list({tuple(x) for x in data['connectivity']})\n")
B("C11", D, "        if isinstance(key, str):\n            digits = key if ',' not in key else key.rstrip(',').split(',')\n", "        if isinstance(key, str):\n            digits = key.replace(',', '')\n", name="multi digit keys split")
B("C11", D, "    return {','.join(map(str, key)) + (',' if len(key) == 1 else '') if isinstance(key, tuple) else key: value for key, value in dict.items()}", "    return {','.join(map(str, key)) if isinstance(key, tuple) else key: value for key, value in dict.items()}", name="single-digit trailing comma lost")
# ---- C13
B("C13", IT, "    return ((circuits_chunk, max(samples_chunk)) for", "    return ((circuits_chunk, samples_chunk[0]) for")
B("C13", IT, "    multiplicities = -(-n_samples // max_sample_size)\n", "    multiplicities = int(np.ceil(n_samples / max_sample_size))\n", pre="import numpy as np", name="float ceil: only wrong for huge")
B("C13", IT, "    return [sum(islice(bitstrings_it, multiplicity), start=[]) for multiplicity in multiplicities]", "    return [list(dict.fromkeys(sum(islice(bitstrings_it, multiplicity), start=[]))) for multiplicity in multiplicities]", name="dedupe bitstrings")
B("C13", IT, "    measurements_it = iter(all_measurements)\n    return [reduce(_combine_measurements, islice(measurements_it, multiplicity)) for multiplicity in multiplicities]", "    offsets = [sum(multiplicities[:i]) for i in range(len(multiplicities))]\n    return [reduce(_combine_measurements, all_measurements[offset:offset + max(multiplicities)]) for offset in offsets]", name="slice with max multiplicity")
B("C13", IT, "    for bitstring, count in second.items():\n        result[bitstring] += count\n", "    for bitstring, count in second.items():\n        if bitstring in result:\n            result[bitstring] += count\n", name="new outcomes dropped")
B("C13", M, "            self.bitstrings += [tuple(measurement)] * counts[bitstring]\n", "            self.bitstrings = [tuple(measurement)] * counts[bitstring] + self.bitstrings[:]\n", name="order reversed (benign?)")
B("C13", M, "bitstring_samples += [bitstring] * int(round(distribution[state] * number_of_samples))", "bitstring_samples += [bitstring] * int(distribution[state] * number_of_samples + 0.5)", name="half up rounding (benign?)")
B("C13", M, "            samples = sample_from_probability_distribution(leftover_distribution.distribution_dict, abs(number_of_samples - len(bitstring_samples)))\n            if number_of_samples - len(bitstring_samples) > 0:\n                for sample in samples:\n                    bitstring_samples += [tuple([int(measurement_value) for measurement_value in sample])] * samples[sample]\n", "            samples = sample_from_probability_distribution(leftover_distribution.distribution_dict, abs(number_of_samples - len(bitstring_samples)))\n            if number_of_samples - len(bitstring_samples) > 0:\n                for sample in samples:\n                    bitstring_samples.append(tuple([int(measurement_value) for measurement_value in sample]))\n", name="leftover sample counted once")
# ---- C14
B("C14", CR, "        result = self._run_and_measure(circuit, n_samples)\n        self._n_circuits_executed += 1\n        self._n_jobs_executed += 1\n        return result\n", "        self._n_circuits_executed += 1\n        self._n_jobs_executed += 1\n        return self._run_and_measure(circuit, n_samples)\n", name="counted before run")
B("C14", CR, "        if any((n <= 0 for n in samples_per_circuit)):\n", "        if sum(samples_per_circuit) <= 0:\n", name="sum positive")
B("C14", CR, "[self.run_and_measure(circuit, n) for circuit, n in zip(batch, samples_per_circuit)]", "[self._run_and_measure(circuit, n) for circuit, n in zip(batch, samples_per_circuit)]", name="not counted in batch")
B("C14", CR, "        samples_per_circuit = len(circuits_batch) * [n_samples] if isinstance(n_samples, int) else n_samples\n", "        samples_per_circuit = [n_samples // len(circuits_batch)] * len(circuits_batch) if isinstance(n_samples, int) else n_samples\n")
B("C14", TR, "        self._n_circuits_executed += len(circuits)\n        self._n_jobs_executed += 1\n", "        self._n_circuits_executed = len(circuits)\n        self._n_jobs_executed += 1\n")
B("C14", TR, "    def save_raw_data(self) -> None:\n        with open(self.raw_data_file_name, 'w+') as f:\n", "    def save_raw_data(self) -> None:\n        if len(self.raw_data) > 1000:\n            self.raw_data = self.raw_data[-1000:]\n        with open(self.raw_data_file_name, 'w+') as f:\n")
B("C14", TR, "        for circuit, measurement in zip(circuits, measurements):\n", "        for circuit, measurement in zip(set(circuits), measurements):\n") if 0 else None
B("C14", TR, "        measurement = self.inner_backend.run_and_measure(circuit, n_samples)\n", "        measurement = self.inner_backend._run_and_measure(circuit, n_samples)\n", name="inner counters bypassed")
# ---- C15
B("C15", ES, "        if task.operator.is_constant or task.number_of_shots == 0:\n", "        if task.operator.is_constant or not task.number_of_shots or len(task.operator.terms) == 0:\n", name="None shots not measured")
B("C15", ES, "            coefficient = sum((term.coefficient for term in task.operator.terms))\n", "            coefficient = task.operator.terms[0].coefficient if task.operator.terms else 0.0\n")
B("C15", ES, "    for ex_val, final_index in zip(measured_expectation_values_list, indices_to_measure):\n        full_expectation_values[final_index] = ex_val\n    return cast(List[ExpectationValues], full_expectation_values)", "    remaining = iter(measured_expectation_values_list)\n    for i, current in enumerate(full_expectation_values):\n        if not current:\n            full_expectation_values[len(full_expectation_values) - 1 - i] = next(remaining)\n    return cast(List[ExpectationValues], full_expectation_values)")
B("C15", ES, "for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps)]", "for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps[:1] * len(estimation_tasks))]")
B("C15", ES, "        measured_expectation_values_list = [expectation_values_to_real(measurements.get_expectation_values(frame_operator)) for frame_operator, measurements in zip(operators, measurements_list)]\n", "        measured_expectation_values_list = [expectation_values_to_real(measurements.get_expectation_values(frame_operator, use_bessel_correction=True)) for frame_operator, measurements in zip(operators, measurements_list)]\n", name="bessel correction switched on")
B("C15", ES, "        circuits, operators, shots_per_circuit = zip(*[(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure])\n", "        estimation_tasks_to_measure.sort(key=lambda e: e.number_of_shots or 0)\n        circuits, operators, shots_per_circuit = zip(*[(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure])\n", name="sorted by shots")
# ---- C16
B("C16", E, "    for _ in range(n_steps):\n        for term in hamiltonian.terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n", "    step = Circuit()\n    for term in hamiltonian.terms:\n        step += time_evolution_for_term(term, time / n_steps)\n    for _ in range(n_steps - 1):\n        circuit += step\n", name="one step missing")
B("C16", E, "    for _ in range(n_steps):\n        for term in hamiltonian.terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n", "    for step in range(n_steps):\n        terms = hamiltonian.terms if step % 2 == 0 else hamiltonian.terms[::-1]\n        for term in terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n", name="alternating order (symmetric trotter)")
B("C16", E, "    all_z_rotation = cnot_gates + central_gate + cnot_gates.inverse()\n", "    all_z_rotation = cnot_gates + central_gate + cnot_gates\n")
B("C16", E, "    circuit = basis_change + all_z_rotation + basis_change.inverse()\n", "    circuit = basis_change + all_z_rotation + basis_change\n")
B("C16", E, "            shift = factor * (np.pi / (4.0 * r))\n", "            shift = factor * (np.pi / (4.0 * abs(r)))\n")
B("C16", E, "    return Circuit(list(chain.from_iterable([(repeated_circuit if i != position else different_circuit).operations for i in range(length)])))", "    return Circuit(list(repeated_circuit.operations) * position + list(different_circuit.operations) + list(repeated_circuit.operations) * (length - position))")
B("C16", E, "    qubit_indices = sorted(term.qubits)\n", "    qubit_indices = list(range(min(term.qubits, default=0), term.n_qubits))\n", name="all qubits between")
# ---- C17
B("C17", D, "            new_counts[new_key] = value + new_counts.get(new_key, 0)\n", "            new_counts[new_key] = max(value, new_counts.get(new_key, 0))\n")
B("C17", D, "            new_key = tuple((key[i] for i in active_qubits))\n", "            new_key = tuple((key[i] for i in sorted(active_qubits)))\n")
B("C17", D, "    norm = sum(input_dict.values())\n    return math.isclose(norm, 1)\n", "    norm = sum(input_dict.values())\n    return math.isclose(norm, 1, abs_tol=0.001)\n")
B("C17", D, "    return all((value >= 0 for value in input_dict.values()))\n", "    return all((value >= -1e-08 for value in input_dict.values()))\n")
B("C17", MM, "    base = max(2, 1 + max((digit for item in all_keys for digit in item)))\n", "    base = 2\n", name="base two always")
B("C17", MM, "    all_keys = set(target_keys).union(measured_keys)\n", "    all_keys = set(target_keys).intersection(measured_keys)\n")
B("C17", MM, "    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2\n    kernel_matrix = np.zeros(exponent.shape)\n", "    exponent = np.abs(x_i[:, None] - y_j[None, :])\n    kernel_matrix = np.zeros(exponent.shape)\n")
B("C17", MM, "    return diff.dot(kernel_matrix.dot(diff))", "    return np.abs(diff).dot(kernel_matrix.dot(np.abs(diff)))")
B("C17", CL, "        value += target_bitstring_value * math.log(max(epsilon, measured_bitstring_value))\n", "        value += target_bitstring_value * math.log(measured_bitstring_value + epsilon)\n")
B("C17", JS, "compute_clipped_negative_log_likelihood(measured_distribution, target_distribution, distance_measure_parameters) / 2\n", "compute_clipped_negative_log_likelihood(measured_distribution, measured_distribution, distance_measure_parameters) / 2\n")
# ---- C18
B("C18", DE, "    new_operations_to_decompose = current_rule.production(operation) if current_rule.predicate(operation) else [operation]\n    return [decomposed_op for op in new_operations_to_decompose for decomposed_op in decompose_operation(op, remaining_rules)]", "    if current_rule.predicate(operation):\n        return [decomposed_op for op in set(current_rule.production(operation)) for decomposed_op in decompose_operation(op, remaining_rules)]\n    return decompose_operation(operation, remaining_rules)")
B("C18", DE, "    return [decomposed_op for op in operations for decomposed_op in decompose_operation(op, decomposition_rules)]", "    cache = {}\n    result = []\n    for op in operations:\n        key = getattr(op, 'gate', op)\n        if key not in cache:\n            cache[key] = decompose_operation(op, decomposition_rules)\n        result.extend(cache[key])\n    return result", name="cache keyed without qubits")
B("C18", OD, "        gate_operation_decomposition = [preprocess_gate(gate)(*operation.qubit_indices) for gate in gate_decomposition]\n", "        gate_operation_decomposition = [preprocess_gate(gate)(*operation.qubit_indices) for gate in gate_decomposition if gate.params[0] != 0 or operation.gate.name != 'U3' or gate.name == 'RZ']\n", name="benign skip")
B("C18", OD, "        return reversed(gate_operation_decomposition)", "        return gate_operation_decomposition")
B("C18", OD, "(operation.gate.name == 'U3' or (isinstance(operation.gate, ControlledGate) and operation.gate.wrapped_gate.name == 'U3'))", "(operation.gate.name == 'U3' or getattr(getattr(operation.gate, 'wrapped_gate', None), 'name', None) == 'U3')", name="dagger also matched")
B("C18", OD, "    return Circuit(decompose_operations(circuit.operations, decomposition_rules), n_qubits=circuit.n_qubits)", "    return Circuit(decompose_operations(circuit.operations, decomposition_rules))")
# ---- C19
B("C19", SE, "    return len(args) == 2 and isinstance(args[1], sympy.Pow) and (args[1].args[1] == -1)", "    return len(args) == 2 and isinstance(args[1], sympy.Pow) and args[1].args[1].is_negative")
B("C19", SE, "    return len(args) == 2 and isinstance(args[1], sympy.Mul) and (args[1].args[0] == -1)", "    return isinstance(args[1], sympy.Mul) and (args[1].args[0] == -1)", name="three-term addition")
B("C19", SE, "    elif power.args[1] == 0.5:\n", "    elif abs(power.args[1]) == 0.5:\n")
B("C19", SE, "        return FunctionCall('div', (1, expression_from_sympy(power.args[0])))\n", "        return FunctionCall('div', (expression_from_sympy(power.args[0]), 1))\n")
B("C19", SE, "'div': operator.truediv", "'div': operator.floordiv")
B("C19", EX, "        return reduce(operator, args)\n", "        return operator(*args[:2])\n")
B("C19", SO, "    return int(text) if text.isdigit() else text\n", "    return int(text) if text.isdecimal() and len(text) < 3 else text\n")
B("C19", TL, "    return tuple((translate_expression(element, dialect) for element in expression_tuple))", "    return tuple((translate_expression(element, dialect) for element in dict.fromkeys(expression_tuple)))", name="dedupe args")
# ---- C20
B("C20", P, "        self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}\n", "        for idx in [idx for idx, op in operator.items() if op == 'I']:\n            del operator[idx]\n        self._ops: Dict[int, str] = operator\n", name="constructor edits its argument")
B("C20", P, "        result_ops = self._ops.copy()\n", "        result_ops = self._ops\n")
B("C20", D, "    res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}\n    for key, value in input_dict.items():\n", "    if all((isinstance(key, tuple) for key in input_dict)):\n        return input_dict\n    res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}\n    for key, value in input_dict.items():\n", name="shared dict then normalised in place")
B("C20", M, "        distribution = copy.deepcopy(measurement_outcome_distribution.distribution_dict)\n", "        distribution = measurement_outcome_distribution.distribution_dict\n        distribution.update({state: float(p) for state, p in distribution.items() if p > 0})\n")
B("C20", EV, "    combined_expectation_values = ExpectationValues(np.zeros(0))\n    for expectation_values in expectation_values_set:\n", "    expectation_values_set = list(expectation_values_set)\n    if len(expectation_values_set) == 1:\n        return expectation_values_set[0]\n    combined_expectation_values = ExpectationValues(np.zeros(0))\n    for expectation_values in expectation_values_set:\n", name="alias returned for single")
B("C20", M, "    correct_samples = samples.copy()\n", "    correct_samples = samples\n", name="samples edited in place")
B("C20", IT, "    result = Counter(first)\n    for bitstring, count in second.items():\n        result[bitstring] += count\n    return dict(result)", "    for bitstring, count in second.items():\n        first[bitstring] = first.get(bitstring, 0) + count\n    return first", name="combine in place")
B("C20", GN, "    extended_circuit = circuit\n    for ancilla_qubit_i in range(n_ancilla_qubits):\n        qubit_index = circuit.n_qubits + ancilla_qubit_i\n        extended_circuit += I(qubit_index)\n    return extended_circuit", "    n_qubits = circuit.n_qubits\n    for ancilla_qubit_i in range(n_ancilla_qubits):\n        circuit._operations += (I(n_qubits + ancilla_qubit_i),)\n    return circuit", name="ancilla in place")

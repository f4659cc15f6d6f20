M = "measurements/measurements.py"
PA = "measurements/parities.py"
EV = "measurements/expectation_values.py"
D = "distributions/_measurement_outcome_distribution.py"
MMD = "distributions/mmd.py"
BAS = "distributions/BAS_dataset.py"
NLL = "distributions/clipped_negative_log_likelihood.py"
JSD = "distributions/jensen_shannon_divergence.py"
TH = "distributions/target_thermal_states.py"
S(M, "    return int(''.join((str(bit) for bit in bitstring[::-1])), 2)", "    return int(''.join(map(str, reversed(bitstring))), 2)")
S(M, "    return int(''.join((str(bit) for bit in bitstring[::-1])), 2)", "    reversed_bits = [str(bit) for bit in bitstring][::-1]\n    return int(''.join(reversed_bits), base=2)")
S(M, "    n_qubits = len([*bitstrings][0])\n", "    n_qubits = len(list(bitstrings)[0])\n")
S(M, "    n_qubits = len([*bitstrings][0])\n    all_bits = ''.join(bitstrings)\n", "    bitstrings = list(bitstrings)\n    n_qubits = len(bitstrings[0])\n    all_bits = ''.join(bitstrings)\n")
S(M, "    n_qubits = len([*bitstrings][0])\n", "    n_qubits = len(next(iter(bitstrings)))\n")
S(M, "np.frombuffer(all_bits.encode('utf-8'), 'u1') - ord('0')", "np.frombuffer(all_bits.encode(), dtype=np.uint8) - ord('0')")
S(M, "np.frombuffer(all_bits.encode('utf-8'), 'u1') - ord('0')", "np.frombuffer(all_bits.encode('utf-8'), dtype='u1') - 48")
S(M, "    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)", "    return bitstring_1d_array.reshape(-1, n_qubits).astype(int)")
S(M, "    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)", "    return bitstring_1d_array.astype(int).reshape((-1, n_qubits))")
S(M, "    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)", "    return np.reshape(bitstring_1d_array.astype(int), (-1, n_qubits))")
S(M, "    parity = check_parity_of_vector(_convert_bitstrings_to_vector(bitstring_frequencies.keys()), marked_qubits) * 2 - 1\n", "    bitstrings_vector = _convert_bitstrings_to_vector(bitstring_frequencies.keys())\n    parity = 2 * check_parity_of_vector(bitstrings_vector, marked_qubits) - 1\n")
S(M, "    num_measurements = sum(bitstring_frequencies.values())\n    expectation_values: np.ndarray = np.fromiter(bitstring_frequencies.values(), dtype=int) * parity / num_measurements\n    return expectation_values.sum().item()",
  "    frequencies = np.fromiter(bitstring_frequencies.values(), dtype=int)\n    num_measurements = sum(bitstring_frequencies.values())\n    return (frequencies * parity / num_measurements).sum().item()")
S(M, "    return expectation_values.sum().item()", "    return np.sum(expectation_values).item()")
S(M, "    return expectation_values.sum().item()", "    return float(expectation_values.sum())")
S(M, "            bitstring = tuple([int(measurement_value) for measurement_value in sample])\n            if correct_samples", "            bitstring = tuple(map(int, sample))\n            if correct_samples")
S(M, "            if correct_samples[sample] > bitstring_counts[bitstring]:\n                nresamples = correct_samples[sample] - bitstring_counts[bitstring]\n                correct_samples[sample] = bitstring_counts[bitstring]\n",
  "            available = bitstring_counts[bitstring]\n            if correct_samples[sample] > available:\n                nresamples = correct_samples[sample] - available\n                correct_samples[sample] = available\n")
S(M, "                new_samples = sample_from_probability_distribution(corrected_leftover_distribution.distribution_dict, nresamples)\n                correct_samples = correct_samples + new_samples\n",
  "                correct_samples = correct_samples + sample_from_probability_distribution(corrected_leftover_distribution.distribution_dict, nresamples)\n")
S(M, "    correct_samples = samples.copy()\n", "    correct_samples = copy.copy(samples)\n")
S(M, "    while nresamples != 0:\n", "    while nresamples:\n")
S(M, "        if bitstrings is None:\n            self.bitstrings = []\n        else:\n            self.bitstrings = bitstrings\n", "        self.bitstrings = [] if bitstrings is None else bitstrings\n")
S(M, "        if bitstrings is None:\n            self.bitstrings = []\n        else:\n            self.bitstrings = bitstrings\n", "        if bitstrings is None:\n            bitstrings = []\n        self.bitstrings = bitstrings\n")
S(M, "            bitstring = tuple([int(measurement_value) for measurement_value in state])\n            bitstring_samples += [bitstring] * int(round(distribution[state] * number_of_samples))\n",
  "            bitstring = tuple(int(value) for value in state)\n            n_copies = int(round(distribution[state] * number_of_samples))\n            bitstring_samples.extend([bitstring] * n_copies)\n")
S(M, "        for state in distribution:\n            bitstring = tuple([int(measurement_value) for measurement_value in state])\n            bitstring_samples += [bitstring] * int(round(distribution[state] * number_of_samples))\n",
  "        for state, probability in distribution.items():\n            bitstring = tuple([int(measurement_value) for measurement_value in state])\n            bitstring_samples += [bitstring] * int(round(probability * number_of_samples))\n")
S(M, "for states in distribution.keys()}", "for states in distribution}")
S(M, "{states: 0.5 - abs(0.5 - distribution[states] * number_of_samples % 1) for states in distribution.keys()}", "{state: 0.5 - abs(0.5 - (probability * number_of_samples) % 1) for state, probability in distribution.items()}")
S(M, "            if number_of_samples - len(bitstring_samples) > 0:\n", "            if len(bitstring_samples) < number_of_samples:\n")
S(M, "        if len(bitstring_samples) != number_of_samples:\n            leftover", "        difference = number_of_samples - len(bitstring_samples)\n        if difference != 0:\n            leftover", more=[("abs(number_of_samples - len(bitstring_samples))", "abs(difference)"), ("if number_of_samples - len(bitstring_samples) > 0:", "if difference > 0:")])
S(M, "                for sample in samples:\n                    bitstring_samples += [tuple([int(measurement_value) for measurement_value in sample])] * samples[sample]\n",
  "                for sample, count in samples.items():\n                    bitstring_samples += [tuple(map(int, sample))] * count\n")
S(M, "                for sample in samples:\n                    for _ in range(samples[sample]):\n                        bitstring_samples.remove(tuple([int(measurement_value) for measurement_value in sample]))\n",
  "                for sample in samples:\n                    bitstring = tuple([int(measurement_value) for measurement_value in sample])\n                    for _ in range(samples[sample]):\n                        bitstring_samples.remove(bitstring)\n")
S(M, "        bitstrings = []\n        for bitstring in data['bitstrings']:\n            bitstrings.append(tuple(bitstring))\n        return cls(bitstrings=bitstrings)", "        return cls([tuple(bitstring) for bitstring in data['bitstrings']])")
S(M, "        bitstrings = []\n        for bitstring in data['bitstrings']:\n            bitstrings.append(tuple(bitstring))\n", "        bitstrings = list(map(tuple, data['bitstrings']))\n")
S(M, "[list(map(int, list(bitstring))) for bitstring in self.bitstrings]", "[[int(bit) for bit in bitstring] for bitstring in self.bitstrings]")
S(M, "            f.write(json.dumps(data, indent=2))", "            json.dump(data, f, indent=2)")
S(M, "        data = {'counts': self.get_counts(), 'bitstrings': [list(map(int, list(bitstring))) for bitstring in self.bitstrings]}\n", "        counts = self.get_counts()\n        bitstrings = [list(map(int, bitstring)) for bitstring in self.bitstrings]\n        data = dict(counts=counts, bitstrings=bitstrings)\n")
S(M, "        bitstrings = convert_tuples_to_bitstrings(self.bitstrings)\n        return dict(Counter(bitstrings))", "        return dict(Counter(convert_tuples_to_bitstrings(self.bitstrings)))")
S(M, "        bitstrings = convert_tuples_to_bitstrings(self.bitstrings)\n        return dict(Counter(bitstrings))", "        counts = {}\n        for bitstring in convert_tuples_to_bitstrings(self.bitstrings):\n            counts[bitstring] = counts.get(bitstring, 0) + 1\n        return counts")
S(M, "        for bitstring in counts.keys():\n            measurement = []\n            for bitvalue in bitstring:\n                measurement.append(int(bitvalue))\n            self.bitstrings += [tuple(measurement)] * counts[bitstring]",
  "        for bitstring, count in counts.items():\n            measurement = tuple(int(bitvalue) for bitvalue in bitstring)\n            self.bitstrings += [measurement] * count")
S(M, "            self.bitstrings += [tuple(measurement)] * counts[bitstring]", "            self.bitstrings.extend([tuple(measurement)] * counts[bitstring])")
S(M, "            self.bitstrings += [tuple(measurement)] * counts[bitstring]", "            for _ in range(counts[bitstring]):\n                self.bitstrings.append(tuple(measurement))")
S(M, "            self.bitstrings += [tuple(measurement)] * counts[bitstring]", "            self.bitstrings.extend(tuple(measurement) for _ in range(counts[bitstring]))")
S(M, "        distribution = {}\n        for bitstring in counts.keys():\n            distribution[bitstring] = counts[bitstring] / num_measurements\n        return MeasurementOutcomeDistribution(distribution)",
  "        return MeasurementOutcomeDistribution({bitstring: count / num_measurements for bitstring, count in counts.items()})")
S(M, "        if not ising_operator.is_ising:\n            raise TypeError('Input operator is not ising.')\n        bitstring", "        if ising_operator.is_ising is False:\n            raise TypeError('Input operator is not ising.')\n        bitstring")
S(M, "        correlations = np.zeros((len(ising_operator.terms),) * 2, dtype=complex)\n", "        n_terms = len(ising_operator.terms)\n        correlations = np.zeros((n_terms, n_terms), dtype=complex)\n")
S(M, "            for j in range(i):\n                second_term = ising_operator.terms[j]\n", "            for j, second_term in enumerate(ising_operator.terms[:i]):\n")
S(M, "                marked_qubits = first_term.qubits.symmetric_difference(second_term.qubits)\n", "                marked_qubits = first_term.qubits ^ second_term.qubits\n")
S(M, "                marked_qubits = first_term.qubits.symmetric_difference(second_term.qubits)\n", "                marked_qubits = (first_term.qubits | second_term.qubits) - (first_term.qubits & second_term.qubits)\n")
S(M, "                correlations[i, j] = first_term.coefficient * second_term.coefficient * get_expectation_value_from_frequencies(marked_qubits, bitstring_frequencies)\n                correlations[j, i] = correlations[i, j]\n",
  "                correlation = first_term.coefficient * second_term.coefficient * get_expectation_value_from_frequencies(marked_qubits, bitstring_frequencies)\n                correlations[i, j] = correlation\n                correlations[j, i] = correlation\n")
S(M, "                correlations[i, j] = first_term.coefficient * second_term.coefficient * get_expectation_value_from_frequencies(marked_qubits, bitstring_frequencies)\n                correlations[j, i] = correlations[i, j]\n",
  "                correlations[i, j] = correlations[j, i] = first_term.coefficient * second_term.coefficient * get_expectation_value_from_frequencies(marked_qubits, bitstring_frequencies)\n")
S(M, "        denominator = num_measurements - 1 if use_bessel_correction else num_measurements\n", "        denominator = num_measurements\n        if use_bessel_correction:\n            denominator -= 1\n")
S(M, "        denominator = num_measurements - 1 if use_bessel_correction else num_measurements\n", "        denominator = num_measurements - int(bool(use_bessel_correction))\n")
S(M, "expectation_values[:, np.newaxis] * expectation_values[np.newaxis, :]", "expectation_values[:, None] * expectation_values[None, :]")
S(M, "expectation_values[:, np.newaxis] * expectation_values[np.newaxis, :]", "np.outer(expectation_values, expectation_values)")
S(M, "correlations[i, i] = first_term.coefficient ** 2", "correlations[i, i] = first_term.coefficient * first_term.coefficient")
S(M, "        measurements = cls()\n        measurements.add_counts(counts)\n        return measurements", "        result = cls([])\n        result.add_counts(counts)\n        return result")
# parities
S(PA, "        data: Dict[str, Any] = {'values': convert_array_to_dict(self.values)}\n        if self.correlations is not None:\n            data['correlations'] = [convert_array_to_dict(arr) for arr in self.correlations]\n        return data",
  "        data: Dict[str, Any] = dict(values=convert_array_to_dict(self.values))\n        if self.correlations is None:\n            return data\n        data['correlations'] = list(map(convert_array_to_dict, self.correlations))\n        return data")
S(PA, "        if data.get('correlations') is not None:\n            correlations: Optional[List] = [convert_dict_to_array(arr) for arr in data['correlations']]\n        else:\n            correlations = None\n        return cls(values, correlations)",
  "        correlations: Optional[List] = None\n        if data.get('correlations') is not None:\n            correlations = [convert_dict_to_array(arr) for arr in data['correlations']]\n        return cls(values=values, correlations=correlations)")
S(PA, "        if data.get('correlations') is not None:\n            correlations: Optional[List] = [convert_dict_to_array(arr) for arr in data['correlations']]\n        else:\n            correlations = None\n",
  "        serialized = data.get('correlations')\n        correlations = None if serialized is None else [convert_dict_to_array(arr) for arr in serialized]\n")
S(PA, "        if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1:\n            result = not result\n", "        if bitstring[qubit_index] in ('1', 1):\n            result = not result\n")
S(PA, "    result = True\n    for qubit_index in marked_qubits:\n        if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1:\n            result = not result\n    return result",
  "    ones = sum(1 for qubit_index in marked_qubits if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1)\n    return ones % 2 == 0")
S(PA, "    result = True\n    for qubit_index in marked_qubits:\n        if bitstring[qubit_index] == '1' or bitstring[qubit_index] == 1:\n            result = not result\n    return result",
  "    result = True\n    for qubit_index in marked_qubits:\n        bit = bitstring[qubit_index]\n        if bit == '1' or bit == 1:\n            result ^= True\n    return result")
S(PA, "    return (bitstring_subset.sum(axis=1) + 1) % 2", "    return np.mod(np.sum(bitstring_subset, axis=1) + 1, 2)")
S(PA, "        return np.ones(bitstrings_vector.shape[0])\n", "        return np.ones(len(bitstrings_vector))\n")
S(PA, "np.fromiter(marked_qubits, dtype=int)", "np.array(list(marked_qubits), dtype=int)")
S(PA, "    bitstrings_vector = np.array([*bitstring_frequencies.keys()])\n", "    bitstrings_vector = np.array(list(bitstring_frequencies))\n")
S(PA, "    for _, term in enumerate(ising_operator.terms):\n        parity", "    for term in ising_operator.terms:\n        parity")
S(PA, "        values.append([true_parity_count, false_parity_count])\n", "        values += [[true_parity_count, false_parity_count]]\n")
S(PA, "    correlations = [np.zeros((len(ising_operator.terms), len(ising_operator.terms), 2))]\n", "    n_terms = len(ising_operator.terms)\n    correlations = [np.zeros((n_terms, n_terms, 2))]\n")
S(PA, "        for term2_index, term2 in enumerate(ising_operator.terms):\n            parity1 = check_parity_of_vector(bitstrings_vector, term1.qubits)\n", "        parity1 = check_parity_of_vector(bitstrings_vector, term1.qubits)\n        for term2_index, term2 in enumerate(ising_operator.terms):\n")
S(PA, "correlations[0][term1_index, term2_index][0] += ((1", "correlations[0][term1_index, term2_index, 0] += ((1")
S(PA, "correlations[0][term1_index, term2_index][0] += ((1 - equal_parities) * bitstring_counts).sum()", "correlations[0][term1_index, term2_index][0] += np.sum((1 - equal_parities) * bitstring_counts)")
S(PA, "((1 - equal_parities) * bitstring_counts).sum()", "(1 - equal_parities).dot(bitstring_counts)")
S(PA, "    with open(filename, 'w') as f:\n        f.write(json.dumps(data, indent=2))", "    with open(filename, mode='w') as f:\n        json.dump(data, f, indent=2)")
S(PA, "    data = parities.to_dict()\n    with open(filename, 'w') as f:\n        f.write(json.dumps(data, indent=2))", "    with open(filename, 'w') as f:\n        f.write(json.dumps(parities.to_dict(), indent=2))", kind="drop")
S(PA, "        data = json.load(f)\n    return Parities.from_dict(data)", "        return Parities.from_dict(json.load(f))")
S(PA, "        data = json.load(f)\n    return Parities.from_dict(data)", "        data = json.loads(f.read())\n    return Parities.from_dict(data)")
# expectation values
S(EV, "        data: Dict[str, Any] = {'frames': []}\n        data['expectation_values'] = convert_array_to_dict(self.values)\n", "        data: Dict[str, Any] = {'frames': [], 'expectation_values': convert_array_to_dict(self.values)}\n")
S(EV, "            data['correlations'] = []\n            for correlation_matrix in self.correlations:\n                data['correlations'].append(convert_array_to_dict(correlation_matrix))\n", "            data['correlations'] = [convert_array_to_dict(matrix) for matrix in self.correlations]\n")
S(EV, "            data['correlations'] = []\n            for correlation_matrix in self.correlations:\n                data['correlations'].append(convert_array_to_dict(correlation_matrix))\n", "            correlations = []\n            for correlation_matrix in self.correlations:\n                correlations.append(convert_array_to_dict(correlation_matrix))\n            data['correlations'] = correlations\n")
S(EV, "            data['estimator_covariances'] = []\n            for covariance_matrix in self.estimator_covariances:\n                data['estimator_covariances'].append(convert_array_to_dict(covariance_matrix))\n", "            data['estimator_covariances'] = list(map(convert_array_to_dict, self.estimator_covariances))\n")
S(EV, "            correlations = []\n            for correlation_matrix in cast(Iterable, dictionary.get('correlations')):\n                correlations.append(convert_dict_to_array(correlation_matrix))\n", "            correlations = [convert_dict_to_array(matrix) for matrix in dictionary['correlations']]\n")
S(EV, "        correlations: Optional[List] = None\n        if dictionary.get('correlations') is not None:\n            correlations = []\n            for correlation_matrix in cast(Iterable, dictionary.get('correlations')):\n                correlations.append(convert_dict_to_array(correlation_matrix))\n",
  "        serialized_correlations = dictionary.get('correlations')\n        correlations: Optional[List] = None if serialized_correlations is None else [convert_dict_to_array(matrix) for matrix in serialized_correlations]\n")
S(EV, "return cls(expectation_values, correlations, estimator_covariances)", "return cls(values=expectation_values, correlations=correlations, estimator_covariances=estimator_covariances)")
S(EV, "return self.__dict__ == __o.__dict__", "return vars(self) == vars(__o)")
S(EV, "    for i, value in enumerate(expectation_values.values):\n        if isinstance(value, complex):\n            value = value.real\n        values.append(value)\n", "    for value in expectation_values.values:\n        values.append(value.real if isinstance(value, complex) else value)\n")
S(EV, "    values = []\n    for i, value in enumerate(expectation_values.values):\n        if isinstance(value, complex):\n            value = value.real\n        values.append(value)\n    expectation_values.values = np.array(values)\n", "    expectation_values.values = np.array([value.real if isinstance(value, complex) else value for value in expectation_values.values])\n")
S(EV, "            if isinstance(value, complex):\n                value = value.real\n            expectation_values.correlations[i] = value\n", "            expectation_values.correlations[i] = value.real if isinstance(value, complex) else value\n")
S(EV, "    combined_expectation_values = ExpectationValues(np.zeros(0))\n", "    combined_expectation_values = ExpectationValues(np.array([]))\n")
S(EV, "        combined_expectation_values.values = np.concatenate((combined_expectation_values.values, expectation_values.values))\n", "        combined_expectation_values.values = np.concatenate([combined_expectation_values.values, expectation_values.values])\n")
S(EV, "        combined_expectation_values.values = np.concatenate((combined_expectation_values.values, expectation_values.values))\n", "        combined_expectation_values.values = np.append(combined_expectation_values.values, expectation_values.values)\n")
S(EV, "            if not combined_expectation_values.correlations:\n                combined_expectation_values.correlations = []\n            combined_expectation_values.correlations += expectation_values.correlations\n", "            combined_expectation_values.correlations = (combined_expectation_values.correlations or []) + expectation_values.correlations\n")
S(EV, "            if not combined_expectation_values.correlations:\n                combined_expectation_values.correlations = []\n            combined_expectation_values.correlations += expectation_values.correlations\n", "            if combined_expectation_values.correlations is None:\n                combined_expectation_values.correlations = []\n            combined_expectation_values.correlations.extend(expectation_values.correlations)\n")
S(EV, "    for i in range(len(parities.values)):\n        N0 = parities.values[i][0]\n        N1 = parities.values[i][1]\n", "    for N0, N1 in parities.values:\n")
S(EV, "    for i in range(len(parities.values)):\n        N0 = parities.values[i][0]\n        N1 = parities.values[i][1]\n", "    for parity in parities.values:\n        N0 = parity[0]\n        N1 = parity[1]\n")
S(EV, "        N0 = parities.values[i][0]\n        N1 = parities.values[i][1]\n", "        N0 = parities.values[i, 0]\n        N1 = parities.values[i, 1]\n")
S(EV, "        if N >= 100 and p >= 0.1 and (p <= 0.9):\n", "        if N >= 100 and 0.1 <= p <= 0.9:\n")
S(EV, "        if N >= 100 and p >= 0.1 and (p <= 0.9):\n            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)\n        else:\n            precision = 1.0 / np.sqrt(N)\n", "        if N < 100 or p < 0.1 or p > 0.9:\n            precision = 1.0 / np.sqrt(N)\n        else:\n            precision = 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)\n")
S(EV, "        value = 2.0 * p - 1.0\n", "        value = -1 + 2 * p\n")
S(EV, "np.array([[precision ** 2.0]])", "np.array([[precision * precision]])")
S(EV, "            precision = 1.0 / np.sqrt(N)\n", "            precision = N ** -0.5\n")
S(EV, "            raise ValueError('There must be at least one sample for each operator')\n", "            raise ValueError(f'There must be at least one sample for each operator (operator {i})')\n")
# distributions
S(D, "        if is_measurement_outcome_distribution(preprocessed_input_dict):\n            if is_normalized", "        if not is_measurement_outcome_distribution(preprocessed_input_dict):\n            raise RuntimeError('Initialization of MeasurementOutcomeDistribution object FAILED: the input dictionary is not a non-negative integer sequence probability distribution. Check keys (same-length non-negative integer tuples) and values (non-negative floats).')\n        else:\n            if is_normalized", more=[("        else:\n            raise RuntimeError('Initialization of MeasurementOutcomeDistribution object FAILED: the input dictionary is not a non-negative integer sequence probability distribution. Check keys (same-length non-negative integer tuples) and values (non-negative floats).')\n\n    def __repr__", "\n    def __repr__")])
S(D, "            if is_normalized(preprocessed_input_dict):\n                self.distribution_dict = preprocessed_input_dict\n            elif normalize:\n                self.distribution_dict = normalize_measurement_outcome_distribution(preprocessed_input_dict)\n            else:\n                warnings.warn('MeasurementOutcomeDistribution object is not normalized.')\n                self.distribution_dict = preprocessed_input_dict\n",
  "            if not is_normalized(preprocessed_input_dict):\n                if normalize:\n                    preprocessed_input_dict = normalize_measurement_outcome_distribution(preprocessed_input_dict)\n                else:\n                    warnings.warn('MeasurementOutcomeDistribution object is not normalized.')\n            self.distribution_dict = preprocessed_input_dict\n")
S(D, "        output = f'MeasurementOutcomeDistribution(input={self.distribution_dict})'\n        return output", "        return 'MeasurementOutcomeDistribution(input={})'.format(self.distribution_dict)")
S(D, "        return len(list(self.distribution_dict.keys())[0])", "        return len(next(iter(self.distribution_dict)))")
S(D, "        if max(active_qubits) + 1 > len(list(self.distribution_dict.keys())[0]):\n", "        if max(active_qubits) >= self.get_number_of_subsystems():\n")
S(D, "        if max(active_qubits) + 1 > len(list(self.distribution_dict.keys())[0]):\n", "        n_subsystems = self.get_number_of_subsystems()\n        if any(qubit >= n_subsystems for qubit in active_qubits):\n")
S(D, "        if len(active_qubits) != len(set(active_qubits)):\n", "        if len(set(active_qubits)) < len(active_qubits):\n")
S(D, "            new_key = tuple((key[i] for i in active_qubits))\n            new_counts[new_key] = value + new_counts.get(new_key, 0)\n", "            new_key = tuple([key[qubit] for qubit in active_qubits])\n            if new_key not in new_counts:\n                new_counts[new_key] = 0\n            new_counts[new_key] += value\n")
S(D, "            new_counts[new_key] = value + new_counts.get(new_key, 0)\n", "            new_counts[new_key] = new_counts.get(new_key, 0) + value\n")
S(D, "        new_counts: Dict[Union[str, Tuple[int, ...]], float] = {}\n        if max", "        from collections import defaultdict\n        new_counts: Dict[Union[str, Tuple[int, ...]], float] = defaultdict(float)\n        if max", more=[("            new_counts[new_key] = value + new_counts.get(new_key, 0)\n", "            new_counts[new_key] += value\n")])
S(D, "        normalize = is_normalized(self.distribution_dict)\n        return MeasurementOutcomeDistribution(new_counts, normalize=normalize)", "        return MeasurementOutcomeDistribution(new_counts, is_normalized(self.distribution_dict))")
S(D, "            digits = key if ',' not in key else key.rstrip(',').split(',')\n            res_dict[tuple(map(int, digits))] = value\n", "            if ',' in key:\n                digits = key.rstrip(',').split(',')\n            else:\n                digits = key\n            res_dict[tuple(int(digit) for digit in digits)] = value\n")
S(D, "        if isinstance(key, str):\n            digits = key if ',' not in key else key.rstrip(',').split(',')\n            res_dict[tuple(map(int, digits))] = value\n        elif isinstance(key, tuple):\n            res_dict[key] = value\n", "        if isinstance(key, tuple):\n            res_dict[key] = value\n        elif isinstance(key, str):\n            digits = key if ',' not in key else key.rstrip(',').split(',')\n            res_dict[tuple(map(int, digits))] = value\n")
S(D, "return all((value >= 0 for value in input_dict.values()))", "return not any((value < 0 for value in input_dict.values()))", kind="drop")
S(D, "return all((value >= 0 for value in input_dict.values()))", "for value in input_dict.values():\n        if not value >= 0:\n            return False\n    return True")
S(D, "return all((value >= 0 for value in input_dict.values()))", "return all(input_dict[key] >= 0 for key in input_dict)")
S(D, "    key_length = len(list(input_dict.keys())[0])\n    return all((len(key) == key_length for key in input_dict.keys()))", "    first_key, *_ = input_dict\n    return all(len(key) == len(first_key) for key in input_dict)")
S(D, "    key_length = len(list(input_dict.keys())[0])\n    return all((len(key) == key_length for key in input_dict.keys()))", "    key_lengths = {len(key) for key in input_dict}\n    return len(key_lengths) == 1")
S(D, "    return all((all((isinstance(sub, (int, np.integer)) and sub >= 0 for sub in key)) for key in input_dict.keys()))", "    return all(isinstance(sub, (int, np.integer)) and sub >= 0 for key in input_dict for sub in key)")
S(D, "    return all((all((isinstance(sub, (int, np.integer)) and sub >= 0 for sub in key)) for key in input_dict.keys()))", "    for key in input_dict:\n        for sub in key:\n            if not isinstance(sub, (int, np.integer)) or sub < 0:\n                return False\n    return True")
S(D, "    return not input_dict == {} and _is_non_negative(input_dict) and _is_key_length_fixed(input_dict) and _are_keys_non_negative_integer_tuples(input_dict)", "    if input_dict == {}:\n        return False\n    return _is_non_negative(input_dict) and _is_key_length_fixed(input_dict) and _are_keys_non_negative_integer_tuples(input_dict)")
S(D, "    return not input_dict == {} and", "    return len(input_dict) > 0 and")
S(D, "    norm = sum(input_dict.values())\n    return math.isclose(norm, 1)", "    return math.isclose(sum(input_dict.values()), 1.0)")
S(D, "    elif 0 < norm < sys.float_info.min:\n", "    if norm > 0 and norm < sys.float_info.min:\n")
S(D, "    elif norm == 1:\n        return measurement_outcome_distribution\n    else:\n        for key in measurement_outcome_distribution:\n            measurement_outcome_distribution[key] *= 1.0 / norm\n        return measurement_outcome_distribution", "    if norm != 1:\n        for key in measurement_outcome_distribution:\n            measurement_outcome_distribution[key] *= 1.0 / norm\n    return measurement_outcome_distribution")
S(D, "        for key in measurement_outcome_distribution:\n            measurement_outcome_distribution[key] *= 1.0 / norm\n", "        scale = 1.0 / norm\n        for key, value in measurement_outcome_distribution.items():\n            measurement_outcome_distribution[key] = value * scale\n")
S(D, "    return {','.join(map(str, key)) + (',' if len(key) == 1 else '') if isinstance(key, tuple) else key: value for key, value in dict.items()}", "    result = {}\n    for key, value in dict.items():\n        if isinstance(key, tuple):\n            suffix = ',' if len(key) == 1 else ''\n            key = ','.join(map(str, key)) + suffix\n        result[key] = value\n    return result")
S(D, "    return {','.join(map(str, key)) + (',' if len(key) == 1 else '') if isinstance(key, tuple) else key: value for key, value in dict.items()}", "    def _stringify(key):\n        if not isinstance(key, tuple):\n            return key\n        joined = ','.join([str(entry) for entry in key])\n        return joined + ',' if len(key) == 1 else joined\n    return {_stringify(key): value for key, value in dict.items()}")
S(D, "    dictionary: Dict[str, Any] = {}\n    preprocessed_distribution_dict = change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict)\n    dictionary['measurement_outcome_distribution'] = preprocessed_distribution_dict\n", "    dictionary: Dict[str, Any] = {'measurement_outcome_distribution': change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict)}\n")
S(D, "    dictionary['measurement_outcome_distribution'] = []\n    for distribution in measurement_outcome_distribution:\n        dictionary['measurement_outcome_distribution'].append(change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict))\n", "    dictionary['measurement_outcome_distribution'] = [change_tuple_dict_keys_to_comma_separated_integers(distribution.distribution_dict) for distribution in measurement_outcome_distribution]\n")
S(D, "    try:\n        distribution = MeasurementOutcomeDistribution(data['bitstring_distribution'])\n    except KeyError:\n        distribution = MeasurementOutcomeDistribution(data['measurement_outcome_distribution'])\n    return distribution", "    try:\n        return MeasurementOutcomeDistribution(data['bitstring_distribution'])\n    except KeyError:\n        return MeasurementOutcomeDistribution(data['measurement_outcome_distribution'])")
S(D, "    try:\n        distribution = MeasurementOutcomeDistribution(data['bitstring_distribution'])\n    except KeyError:\n        distribution = MeasurementOutcomeDistribution(data['measurement_outcome_distribution'])\n    return distribution", "    key = 'bitstring_distribution' if 'bitstring_distribution' in data else 'measurement_outcome_distribution'\n    return MeasurementOutcomeDistribution(data[key])")
S(D, "    keys = product([0, 1], repeat=int(np.log2(len(prob_distribution))))\n    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = {key: float(value) for key, value in zip(keys, prob_distribution)}\n", "    n_qubits = int(np.log2(len(prob_distribution)))\n    keys = product([0, 1], repeat=n_qubits)\n    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = dict(zip(keys, map(float, prob_distribution)))\n")
S(D, "product([0, 1], repeat=int", "product(range(2), repeat=int")
S(D, "    if not isinstance(target_distribution, MeasurementOutcomeDistribution) or not isinstance(measured_distribution, MeasurementOutcomeDistribution):\n", "    if not all(isinstance(distribution, MeasurementOutcomeDistribution) for distribution in (target_distribution, measured_distribution)):\n")
S(D, "    if not isinstance(target_distribution, MeasurementOutcomeDistribution) or not isinstance(measured_distribution, MeasurementOutcomeDistribution):\n", "    if not (isinstance(target_distribution, MeasurementOutcomeDistribution) and isinstance(measured_distribution, MeasurementOutcomeDistribution)):\n")
S(D, "    if is_normalized(target_distribution.distribution_dict) != is_normalized(measured_distribution.distribution_dict):\n", "    target_is_normalized = is_normalized(target_distribution.distribution_dict)\n    measured_is_normalized = is_normalized(measured_distribution.distribution_dict)\n    if target_is_normalized != measured_is_normalized:\n")
S(D, "    if is_normalized(target_distribution.distribution_dict) != is_normalized(measured_distribution.distribution_dict):\n", "    if is_normalized(target_distribution.distribution_dict) ^ is_normalized(measured_distribution.distribution_dict):\n")
# mmd & co
S(MMD, "    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2\n    try:\n        gamma = 1.0 / (2 * sigma)\n    except", "    exponent = np.square(np.abs(x_i[:, np.newaxis] - y_j[np.newaxis, :]))\n    try:\n        gamma = 1.0 / (2 * sigma)\n    except")
S(MMD, "    kernel_matrix = np.exp(-gamma * exponent)\n    return kernel_matrix\n", "    return np.exp(-1 * gamma * exponent)\n")
S(MMD, "    kernel_matrix = np.exp(-gamma * exponent)\n    return kernel_matrix\n", "    return np.exp(-(gamma * exponent))\n")
S(MMD, "    kernel_matrix = np.zeros(exponent.shape)\n", "    kernel_matrix = np.zeros_like(exponent)\n")
S(MMD, "        kernel_matrix += np.exp(-gamma * exponent)\n", "        kernel_matrix = kernel_matrix + np.exp(-gamma * exponent)\n")
S(MMD, "    all_keys = set(target_keys).union(measured_keys)\n", "    all_keys = set(target_keys) | set(measured_keys)\n")
S(MMD, "    all_keys = set(target_keys).union(measured_keys)\n", "    all_keys = target_keys | measured_keys\n")
S(MMD, "    target_values = []\n    measured_values = []\n    for bitstring in all_keys:\n        target_values.append(target_distribution.distribution_dict.get(bitstring, 0))\n        measured_values.append(measured_distribution.distribution_dict.get(bitstring, 0))\n", "    target_values = [target_distribution.distribution_dict.get(bitstring, 0) for bitstring in all_keys]\n    measured_values = [measured_distribution.distribution_dict.get(bitstring, 0) for bitstring in all_keys]\n")
S(MMD, "    if not hasattr(sigma, '__len__'):\n        kernel_matrix = compute_rbf_kernel(basis, basis, sigma)\n    else:\n        kernel_matrix = compute_multi_rbf_kernel(basis, basis, sigma)\n", "    kernel = compute_multi_rbf_kernel if hasattr(sigma, '__len__') else compute_rbf_kernel\n    kernel_matrix = kernel(basis, basis, sigma)\n")
S(MMD, "    return diff.dot(kernel_matrix.dot(diff))", "    return diff @ (kernel_matrix @ diff)")
S(MMD, "    return diff.dot(kernel_matrix.dot(diff))", "    return np.dot(diff, np.dot(kernel_matrix, diff))")
S(MMD, "np.array(target_values) - np.array(measured_values)", "np.subtract(target_values, measured_values)")
S(MMD, "reduce(lambda acc, digit: base * acc + digit, item, 0)", "reduce(lambda acc, digit: acc * base + digit, item, 0)")
S(MMD, "max(2, 1 + max((digit for item in all_keys for digit in item)))", "max(max((max(item) for item in all_keys)) + 1, 2)", kind="drop")
S(NLL, "    all_keys = set(target_keys).union(measured_keys)\n", "    all_keys = set(target_keys) | set(measured_keys)\n")
S(NLL, "    value = 0.0\n    target_keys", "    target_keys", more=[("    for bitstring in all_keys:\n        target_bitstring_value = target_distribution.distribution_dict.get(bitstring, 0)\n        measured_bitstring_value = measured_distribution.distribution_dict.get(bitstring, 0)\n        value += target_bitstring_value * math.log(max(epsilon, measured_bitstring_value))\n    return -value", "    return -sum(target_distribution.distribution_dict.get(bitstring, 0) * math.log(max(epsilon, measured_distribution.distribution_dict.get(bitstring, 0))) for bitstring in all_keys)")])
S(NLL, "        value += target_bitstring_value * math.log(max(epsilon, measured_bitstring_value))\n    return -value", "        value -= target_bitstring_value * math.log(max(measured_bitstring_value, epsilon))\n    return value")
S(NLL, "math.log(max(epsilon, measured_bitstring_value))", "math.log(epsilon if measured_bitstring_value < epsilon else measured_bitstring_value)")
S(JSD, "    value = compute_clipped_negative_log_likelihood(target_distribution, measured_distribution, distance_measure_parameters) / 2 + compute_clipped_negative_log_likelihood(measured_distribution, target_distribution, distance_measure_parameters) / 2\n    return value",
  "    forward = compute_clipped_negative_log_likelihood(target_distribution, measured_distribution, distance_measure_parameters)\n    backward = compute_clipped_negative_log_likelihood(measured_distribution, target_distribution, distance_measure_parameters)\n    return (forward + backward) / 2")
S(JSD, "measured_distribution, distance_measure_parameters) / 2 +", "measured_distribution, distance_measure_parameters) * 0.5 +")
S(TH, "    binary_bitstring = dec2bin(number, length)\n    ising_bitstring = [bit * 2 - 1 for bit in binary_bitstring]\n    return ising_bitstring", "    return [2 * bit - 1 for bit in dec2bin(number, length)]")
S(TH, "    ising_bitstring = [bit * 2 - 1 for bit in binary_bitstring]\n", "    ising_bitstring = [1 if bit else -1 for bit in binary_bitstring]\n")
S(TH, "    binary_bitstring = [int((bit + 1) / 2) for bit in ising_bitstring]\n    number = bin2dec(binary_bitstring)\n    return number", "    return bin2dec([int((bit + 1) / 2) for bit in ising_bitstring])")
S(TH, "[int((bit + 1) / 2) for bit in ising_bitstring]", "[(bit + 1) // 2 for bit in ising_bitstring]")
S(TH, "        for j in range(i, n_spins):\n            if i == j:\n                continue\n            two", "        for j in range(i + 1, n_spins):\n            two")
S(TH, "            two_body_couplings[i, j] = two_body_couplings[j, i] = np.random.normal(0, np.sqrt(n_spins))\n", "            coupling = np.random.normal(0, np.sqrt(n_spins))\n            two_body_couplings[i, j] = coupling\n            two_body_couplings[j, i] = coupling\n")
S(TH, "    for spin in range(int(2 ** n_spins)):\n        ising", "    for spin in range(2 ** n_spins):\n        ising")
S(TH, "            if i != n_spins - 1:\n", "            if i < n_spins - 1:\n")
S(TH, "        for i in range(n_spins):\n            energy -= ising_bitstring[i] * external_fields[i]\n            if i != n_spins - 1:\n                energy -= ising_bitstring[i] * ising_bitstring[i + 1] * two_body_couplings[i, i + 1]\n", "        for i in range(n_spins):\n            energy = energy - external_fields[i] * ising_bitstring[i]\n            if i == n_spins - 1:\n                continue\n            energy = energy - ising_bitstring[i] * ising_bitstring[i + 1] * two_body_couplings[i, i + 1]\n")
S(TH, "    beta = 1.0 / temperature\n", "    beta = 1 / temperature\n")
S(TH, "        integer_list: List[int] = []\n        for elem in samples:\n            integer_list.append(int(elem))\n        idx = convert_ising_bitstring_to_integer(integer_list)\n        histogram_samples[idx] += counts / n_samples\n    sample", "        integer_list = [int(elem) for elem in samples]\n        histogram_samples[convert_ising_bitstring_to_integer(integer_list)] += counts / n_samples\n    sample")
S(TH, "        binary_bitstring = tuple_to_bitstring(tuple(dec2bin(spin, n_spins)))\n        sample_distribution_dict[binary_bitstring] = histogram_samples[spin]\n", "        bits = tuple(dec2bin(spin, n_spins))\n        sample_distribution_dict[tuple_to_bitstring(bits)] = histogram_samples[spin]\n")
S(TH, "        cardinality = 0\n        for elem in integer_list:\n            if elem == 1:\n                cardinality += 1\n", "        cardinality = integer_list.count(1)\n")
S(TH, "        cardinality = 0\n        for elem in integer_list:\n            if elem == 1:\n                cardinality += 1\n", "        cardinality = sum(1 for elem in integer_list if elem == 1)\n")
S(TH, "        for _ in range(int(counts)):\n            cardinality_list.append(cardinality)\n", "        cardinality_list.extend([cardinality] * int(counts))\n")
S(TH, "        for _ in range(int(counts)):\n            cardinality_list.append(cardinality)\n", "        cardinality_list += int(counts) * [cardinality]\n")
S(BAS, "    num_desired_patterns = int(len(data) * fraction)\n    num_desired_patterns = max(num_desired_patterns, 1)\n", "    num_desired_patterns = max(1, int(fraction * len(data)))\n")
S(BAS, "        bitstring = ''\n        for qubit in pattern:\n            bitstring += str(qubit)\n        distribution_dict[bitstring] = 1.0\n", "        distribution_dict[''.join(str(qubit) for qubit in pattern)] = 1.0\n")
S(BAS, "    distribution_dict = {}\n    for pattern in data:\n        bitstring = ''\n        for qubit in pattern:\n            bitstring += str(qubit)\n        distribution_dict[bitstring] = 1.0\n", "    distribution_dict = {''.join(map(str, pattern)): 1.0 for pattern in data}\n")
S(BAS, "        pic = np.repeat([h], nrows, 0)\n        data.append(pic.ravel().tolist())\n", "        data.append(np.repeat([h], nrows, axis=0).ravel().tolist())\n")
S(BAS, "        pic = np.repeat([h], nrows, 0)\n        data.append(pic.ravel().tolist())\n", "        data.append(list(h) * nrows)\n")
S(BAS, "    data = np.unique(np.asarray(data), axis=0)\n    return data", "    return np.unique(np.array(data), axis=0)")
S(BAS, "            num_patterns += math.factorial(dimension) // (math.factorial(dimension - num_choices) * math.factorial(num_choices))\n", "            num_patterns += math.comb(dimension, num_choices)\n")
S(BAS, "    for dimension in [nrows, ncols]:\n", "    for dimension in (nrows, ncols):\n")
S(BAS, "    if method == 'zigzag':\n        data = bars_and_stripes_zigzag(nrows, ncols)\n    else:\n        raise RuntimeError('Method: {} is not supported for generated a target distribution for bars and stripes'.format(method))\n", "    if method != 'zigzag':\n        raise RuntimeError('Method: {} is not supported for generated a target distribution for bars and stripes'.format(method))\n    data = bars_and_stripes_zigzag(nrows, ncols)\n")

P = "measurements/measurements.py"
F(P, "convert_bitstring_to_int", '''
def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
    reversed_bits = [str(bit) for bit in reversed(bitstring)]
    return int("".join(reversed_bits), base=2)
''')
F(P, "_convert_bitstrings_to_vector", '''
def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
    first = list(bitstrings)[0]
    encoded = "".join(bitstrings).encode("utf-8")
    bits = np.frombuffer(encoded, "u1") - ord("0")
    return bits.astype(int).reshape(-1, len(first))
''')
F(P, "get_expectation_value_from_frequencies", '''
def get_expectation_value_from_frequencies(
    marked_qubits: Iterable[int], bitstring_frequencies: Dict[str, int]
) -> float:
    bitstrings_vector = _convert_bitstrings_to_vector(bitstring_frequencies.keys())
    signs = 2 * check_parity_of_vector(bitstrings_vector, marked_qubits) - 1
    frequencies = np.fromiter(bitstring_frequencies.values(), dtype=int)
    total = sum(bitstring_frequencies.values())
    return (frequencies * signs / total).sum().item()
''')
F(P, "Measurements.__init__", '''
def __init__(self, bitstrings: Optional[List[Tuple[int, ...]]] = None):
    self.bitstrings = [] if bitstrings is None else bitstrings
''')
F(P, "Measurements.get_measurements_representing_distribution", '''
@classmethod
def get_measurements_representing_distribution(
    cls,
    measurement_outcome_distribution: MeasurementOutcomeDistribution,
    number_of_samples: int,
):
    distribution = copy.deepcopy(measurement_outcome_distribution.distribution_dict)

    bitstring_samples = []
    for state, probability in distribution.items():
        bitstring = _to_int_tuple(state)
        bitstring_samples += [bitstring] * int(round(probability * number_of_samples))

    n_missing = number_of_samples - len(bitstring_samples)
    if n_missing != 0:
        leftover_distribution = MeasurementOutcomeDistribution(
            {
                states: 0.5 - abs(0.5 - distribution[states] * number_of_samples % 1)
                for states in distribution.keys()
            },
            True,
        )
        samples = sample_from_probability_distribution(
            leftover_distribution.distribution_dict, abs(n_missing)
        )
        if n_missing > 0:
            for sample in samples:
                bitstring_samples += [_to_int_tuple(sample)] * samples[sample]
        else:
            samples = _check_sample_elimination(
                samples, bitstring_samples, leftover_distribution
            )
            for sample in samples:
                for _ in range(samples[sample]):
                    bitstring_samples.remove(_to_int_tuple(sample))

    return cls(bitstring_samples)
''', pre='''
def _to_int_tuple(state):
    return tuple(int(measurement_value) for measurement_value in state)
''')
F(P, "Measurements.load_from_file", '''
@classmethod
def load_from_file(cls, file: TextIO):
    with ensure_open(file) as f:
        data = json.load(f)
    return cls(bitstrings=[tuple(bitstring) for bitstring in data["bitstrings"]])
''')
F(P, "Measurements.save", '''
def save(self, filename: AnyPath):
    bitstrings = [[int(bit) for bit in bitstring] for bitstring in self.bitstrings]
    data = {"counts": self.get_counts(), "bitstrings": bitstrings}
    with open(filename, "w") as f:
        f.write(json.dumps(data, indent=2))
''')
F(P, "Measurements.get_counts", '''
def get_counts(self):
    counts = Counter(convert_tuples_to_bitstrings(self.bitstrings))
    return dict(counts)
''')
F(P, "Measurements.add_counts", '''
def add_counts(self, counts: Dict[str, int]):
    for bitstring, count in counts.items():
        measurement = tuple(int(bitvalue) for bitvalue in bitstring)
        self.bitstrings += [measurement] * count
''')
F(P, "Measurements.add_counts", '''
def add_counts(self, counts: Dict[str, int]):
    for bitstring in counts:
        measurement = tuple(map(int, bitstring))
        self.bitstrings.extend([measurement] * counts[bitstring])
''', name="addc2")
F(P, "Measurements.get_distribution", '''
def get_distribution(self) -> MeasurementOutcomeDistribution:
    num_measurements = len(self.bitstrings)
    return MeasurementOutcomeDistribution(
        {
            bitstring: count / num_measurements
            for bitstring, count in self.get_counts().items()
        }
    )
''')
F(P, "Measurements.get_expectation_values", '''
def get_expectation_values(
    self,
    ising_operator: PauliRepresentation,
    use_bessel_correction: bool = False,
) -> ExpectationValues:
    if not ising_operator.is_ising:
        raise TypeError("Input operator is not ising.")

    frequencies = self.get_counts()
    terms = ising_operator.terms
    expectation_values = np.array(
        [
            term.coefficient
            * get_expectation_value_from_frequencies(term.qubits, frequencies)
            for term in terms
        ]
    )
    correlations = self._correlations(terms, frequencies)

    denominator = len(self.bitstrings)
    if use_bessel_correction:
        denominator -= 1

    outer = expectation_values[:, np.newaxis] * expectation_values[np.newaxis, :]
    estimator_covariances = (correlations - outer) / denominator

    return ExpectationValues(
        expectation_values, [correlations], [estimator_covariances]
    )
''', post='''
@staticmethod
def _correlations(terms, frequencies):
    n_terms = len(terms)
    correlations = np.zeros((n_terms, n_terms), dtype=complex)
    for i, first_term in enumerate(terms):
        correlations[i, i] = first_term.coefficient**2
        for j in range(i):
            second_term = terms[j]
            marked_qubits = first_term.qubits.symmetric_difference(second_term.qubits)
            correlations[i, j] = (
                first_term.coefficient
                * second_term.coefficient
                * get_expectation_value_from_frequencies(marked_qubits, frequencies)
            )
            correlations[j, i] = correlations[i, j]
    return correlations
''')
P = "measurements/parities.py"
F(P, "check_parity", '''
def check_parity(
    bitstring: Union[str, Sequence[int]], marked_qubits: Iterable[int]
) -> bool:
    result = True
    for qubit_index in marked_qubits:
        bit = bitstring[qubit_index]
        if bit == "1" or bit == 1:
            result = not result
    return result
''')
F(P, "check_parity", '''
def check_parity(
    bitstring: Union[str, Sequence[int]], marked_qubits: Iterable[int]
) -> bool:
    n_ones = sum(1 for qubit_index in marked_qubits if bitstring[qubit_index] in ("1", 1))
    return n_ones % 2 == 0
''', name="parity2")
F(P, "check_parity_of_vector", '''
def check_parity_of_vector(
    bitstrings_vector: np.ndarray, marked_qubits: Iterable[int]
) -> np.ndarray:
    if not marked_qubits:
        n_bitstrings = bitstrings_vector.shape[0]
        return np.ones(n_bitstrings)

    columns = np.fromiter(marked_qubits, dtype=int)
    n_ones = bitstrings_vector[:, columns].sum(axis=1)
    return (n_ones + 1) % 2
''')
F(P, "get_parities_from_measurements", '''
def get_parities_from_measurements(
    measurements: List[Tuple[int]], ising_operator: PauliRepresentation
) -> Parities:
    if not ising_operator.is_ising:
        raise TypeError("Input operator is not an ising operator")

    bitstring_frequencies = Counter(measurements)
    bitstrings_vector = np.array([*bitstring_frequencies.keys()])
    bitstring_counts: np.ndarray = np.fromiter(
        bitstring_frequencies.values(), dtype=int
    )

    terms = ising_operator.terms
    parities = [
        check_parity_of_vector(bitstrings_vector, term.qubits) for term in terms
    ]

    values = [
        [(parity * bitstring_counts).sum(), ((1 - parity) * bitstring_counts).sum()]
        for parity in parities
    ]

    n_terms = len(terms)
    correlations = [np.zeros((n_terms, n_terms, 2))]
    for term1_index, parity1 in enumerate(parities):
        for term2_index, parity2 in enumerate(parities):
            differs = np.abs(parity1 - parity2)
            correlations[0][term1_index, term2_index][0] += (
                (1 - differs) * bitstring_counts
            ).sum()
            correlations[0][term1_index, term2_index][1] += (
                differs * bitstring_counts
            ).sum()

    return Parities(np.array(values), correlations)
''')
F(P, "Parities.from_dict", '''
@classmethod
def from_dict(cls, data: dict):
    values = convert_dict_to_array(data["values"])
    correlations = data.get("correlations")
    if correlations is not None:
        correlations = [convert_dict_to_array(arr) for arr in correlations]
    return cls(values, correlations)
''')
F(P, "Parities.to_dict", '''
def to_dict(self) -> dict:
    data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
    if self.correlations is None:
        return data
    data["correlations"] = list(map(convert_array_to_dict, self.correlations))
    return data
''')
P = "measurements/expectation_values.py"
F(P, "ExpectationValues.to_dict", '''
def to_dict(self) -> Dict[str, Any]:
    data: Dict[str, Any] = {
        "frames": [],
        "expectation_values": convert_array_to_dict(self.values),
    }

    if self.correlations is not None:
        data["correlations"] = [
            convert_array_to_dict(matrix) for matrix in self.correlations
        ]

    if self.estimator_covariances is not None:
        data["estimator_covariances"] = [
            convert_array_to_dict(matrix) for matrix in self.estimator_covariances
        ]

    return data
''')
F(P, "ExpectationValues.from_dict", '''
@classmethod
def from_dict(cls, dictionary: dict) -> "ExpectationValues":
    return cls(
        convert_dict_to_array(dictionary["expectation_values"]),
        _arrays_from_dicts(dictionary.get("correlations")),
        _arrays_from_dicts(dictionary.get("estimator_covariances")),
    )
''', pre='''
def _arrays_from_dicts(dicts):
    if dicts is None:
        return None
    return [convert_dict_to_array(dict_) for dict_ in dicts]
''')
F(P, "expectation_values_to_real", '''
def expectation_values_to_real(
    expectation_values: ExpectationValues,
) -> ExpectationValues:
    values = [_real_part(value) for value in expectation_values.values]
    expectation_values.values = np.array(values)
    if expectation_values.correlations:
        for i, value in enumerate(expectation_values.correlations):
            expectation_values.correlations[i] = _real_part(value)
    return expectation_values
''', pre='''
def _real_part(value):
    return value.real if isinstance(value, complex) else value
''')
F(P, "concatenate_expectation_values", '''
def concatenate_expectation_values(
    expectation_values_set: Iterable[ExpectationValues],
) -> ExpectationValues:
    combined = ExpectationValues(np.zeros(0))

    for item in expectation_values_set:
        combined.values = np.concatenate((combined.values, item.values))
        if item.correlations:
            if not combined.correlations:
                combined.correlations = []
            combined.correlations += item.correlations
        if item.estimator_covariances:
            if not combined.estimator_covariances:
                combined.estimator_covariances = []
            combined.estimator_covariances += item.estimator_covariances

    return combined
''')
F(P, "get_expectation_values_from_parities", '''
def get_expectation_values_from_parities(parities: Parities) -> ExpectationValues:
    values = []
    estimator_covariances = []

    for N0, N1 in parities.values:
        N = N0 + N1
        if N == 0:
            raise ValueError("There must be at least one sample for each operator")

        p = N0 / N
        values.append(2.0 * p - 1.0)
        precision = _estimate_precision(p, N)
        estimator_covariances.append(np.array([[precision**2.0]]))

    return ExpectationValues(
        values=np.array(values), estimator_covariances=estimator_covariances
    )
''', pre='''
def _estimate_precision(p, N):
    if N >= 100 and 0.1 <= p <= 0.9:
        return 2.0 * np.sqrt(p * (1.0 - p)) / np.sqrt(N)
    return 1.0 / np.sqrt(N)
''')
P = "distributions/_measurement_outcome_distribution.py"
F(P, "MeasurementOutcomeDistribution.__init__", '''
def __init__(
    self,
    input_dict: Dict[Union[str, Tuple[int, ...]], float],
    normalize: bool = True,
):
    preprocessed = preprocess_distibution_dict(input_dict)
    if not is_measurement_outcome_distribution(preprocessed):
        raise RuntimeError(
            "Initialization of MeasurementOutcomeDistribution object FAILED: the "
            "input dictionary is not a non-negative integer sequence probability "
            "distribution. Check keys (same-length non-negative integer tuples) and "
            "values (non-negative floats)."
        )

    if not is_normalized(preprocessed):
        if normalize:
            preprocessed = normalize_measurement_outcome_distribution(preprocessed)
        else:
            warnings.warn("MeasurementOutcomeDistribution object is not normalized.")
    self.distribution_dict = preprocessed
''')
F(P, "MeasurementOutcomeDistribution.get_number_of_subsystems", '''
def get_number_of_subsystems(self) -> int:
    first_key = next(iter(self.distribution_dict))
    return len(first_key)
''')
F(P, "MeasurementOutcomeDistribution.subdistribution", '''
def subdistribution(
    self, active_qubits: List[int]
) -> "MeasurementOutcomeDistribution":
    n_subsystems = self.get_number_of_subsystems()
    if max(active_qubits) >= n_subsystems:
        raise ValueError("Active qubit indeces contains out of bound index.")

    if len(set(active_qubits)) != len(active_qubits):
        raise ValueError("There exist duplicate indices in the active qubit list")

    new_counts: Dict[Union[str, Tuple[int, ...]], float] = {}
    for key, value in self.distribution_dict.items():
        new_key = tuple([key[i] for i in active_qubits])
        new_counts[new_key] = new_counts.get(new_key, 0) + value

    return MeasurementOutcomeDistribution(
        new_counts, normalize=is_normalized(self.distribution_dict)
    )
''')
F(P, "preprocess_distibution_dict", '''
def preprocess_distibution_dict(
    input_dict: Dict[Union[str, Tuple[int, ...]], float]
) -> Dict[Union[str, Tuple[int, ...]], float]:
    return {_preprocess_key(key): value for key, value in input_dict.items()}
''', pre='''
def _preprocess_key(key):
    if isinstance(key, tuple):
        return key
    if isinstance(key, str):
        digits = key.rstrip(",").split(",") if "," in key else key
        return tuple(int(digit) for digit in digits)
    raise RuntimeError(
        "Initialization of MeasurementOutcomeDistribution object FAILED:"
        "The non-tuple dictionary keys are not consistent. "
        "Check that the keys are either same-length tuples, binary strings or "
        "comma-separated non-negative integer strings."
    )
''')
F(P, "_is_non_negative", '''
def _is_non_negative(input_dict: Dict[Union[str, Tuple[int, ...]], float]) -> bool:
    for value in input_dict.values():
        if not value >= 0:
            return False
    return True
''')
F(P, "_is_key_length_fixed", '''
def _is_key_length_fixed(input_dict: Dict[Union[str, Tuple[int, ...]], float]) -> bool:
    keys = list(input_dict)
    key_length = len(keys[0])
    return all(len(key) == key_length for key in keys)
''')
F(P, "is_measurement_outcome_distribution", '''
def is_measurement_outcome_distribution(
    input_dict: Dict[Union[str, Tuple[int, ...]], float]
) -> bool:
    if input_dict == {}:
        return False
    return (
        _is_non_negative(input_dict)
        and _is_key_length_fixed(input_dict)
        and _are_keys_non_negative_integer_tuples(input_dict)
    )
''')
F(P, "is_normalized", '''
def is_normalized(input_dict: Dict[Union[str, Tuple[int, ...]], float]) -> bool:
    return math.isclose(sum(input_dict.values()), 1)
''')
F(P, "normalize_measurement_outcome_distribution", '''
def normalize_measurement_outcome_distribution(
    measurement_outcome_distribution: Dict[Union[str, Tuple[int, ...]], float]
) -> Dict:
    norm = sum(measurement_outcome_distribution.values())
    if norm == 0:
        raise ValueError(
            "Normalization of MeasurementOutcomeDistribution FAILED: "
            "input dict is empty (all zero values)."
        )
    if 0 < norm < sys.float_info.min:
        raise ValueError(
            "Normalization of MeasurementOutcomeDistribution FAILED: too small values."
        )
    if norm != 1:
        factor = 1.0 / norm
        for key in measurement_outcome_distribution:
            measurement_outcome_distribution[key] *= factor
    return measurement_outcome_distribution
''')
F(P, "change_tuple_dict_keys_to_comma_separated_integers", '''
def change_tuple_dict_keys_to_comma_separated_integers(dict):
    def _convert(key):
        if not isinstance(key, tuple):
            return key
        joined = ",".join(str(digit) for digit in key)
        return joined + "," if len(key) == 1 else joined

    return {_convert(key): value for key, value in dict.items()}
''')
F(P, "save_measurement_outcome_distributions", '''
def save_measurement_outcome_distributions(
    measurement_outcome_distribution: List[MeasurementOutcomeDistribution],
    filename: str,
) -> None:
    dictionary: Dict[str, Any] = {
        "measurement_outcome_distribution": [
            change_tuple_dict_keys_to_comma_separated_integers(
                distribution.distribution_dict
            )
            for distribution in measurement_outcome_distribution
        ]
    }
    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
''')
F(P, "load_measurement_outcome_distribution", '''
def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
    with ensure_open(file) as f:
        data = json.load(f)

    try:
        return MeasurementOutcomeDistribution(data["bitstring_distribution"])
    except KeyError:
        return MeasurementOutcomeDistribution(data["measurement_outcome_distribution"])
''')
F(P, "create_bitstring_distribution_from_probability_distribution", '''
def create_bitstring_distribution_from_probability_distribution(
    prob_distribution: np.ndarray,
) -> MeasurementOutcomeDistribution:
    n_qubits = int(np.log2(len(prob_distribution)))
    prob_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
    for key, value in zip(product([0, 1], repeat=n_qubits), prob_distribution):
        prob_dict[key] = float(value)
    return MeasurementOutcomeDistribution(prob_dict)
''')
F(P, "evaluate_distribution_distance", '''
def evaluate_distribution_distance(
    target_distribution: MeasurementOutcomeDistribution,
    measured_distribution: MeasurementOutcomeDistribution,
    distance_measure_function: Callable,
    **kwargs,
) -> float:
    if not (
        isinstance(target_distribution, MeasurementOutcomeDistribution)
        and isinstance(measured_distribution, MeasurementOutcomeDistribution)
    ):
        raise TypeError(
            "Arguments of evaluate_cost_function must be of type "
            "MeasurementOutcomeDistribution."
        )

    n_target = target_distribution.get_number_of_subsystems()
    n_measured = measured_distribution.get_number_of_subsystems()
    if n_target != n_measured:
        raise RuntimeError(
            "Measurement Outcome Distribution Distance Evaluation FAILED: target "
            "and measured distributions are defined on tuples of different length."
        )

    target_normalized = is_normalized(target_distribution.distribution_dict)
    measured_normalized = is_normalized(measured_distribution.distribution_dict)
    if target_normalized != measured_normalized:
        raise RuntimeError(
            "Measurement Outcome Distribution Distance Evaluation FAILED: one among "
            "target and measured distribution is normalized, whereas the other is not."
        )

    return distance_measure_function(
        target_distribution, measured_distribution, **kwargs
    )
''')
P = "distributions/clipped_negative_log_likelihood.py"
F(P, "compute_clipped_negative_log_likelihood", '''
def compute_clipped_negative_log_likelihood(
    target_distribution: "MeasurementOutcomeDistribution",
    measured_distribution: "MeasurementOutcomeDistribution",
    distance_measure_parameters: Dict,
) -> float:
    epsilon = distance_measure_parameters.get("epsilon", 1e-9)
    target_dict = target_distribution.distribution_dict
    measured_dict = measured_distribution.distribution_dict
    all_keys = set(target_dict.keys()).union(measured_dict.keys())

    value = 0.0
    for bitstring in all_keys:
        target_value = target_dict.get(bitstring, 0)
        measured_value = measured_dict.get(bitstring, 0)
        value += target_value * math.log(max(epsilon, measured_value))

    return -value
''')
P = "distributions/jensen_shannon_divergence.py"
F(P, "compute_jensen_shannon_divergence", '''
def compute_jensen_shannon_divergence(
    target_distribution: "MeasurementOutcomeDistribution",
    measured_distribution: "MeasurementOutcomeDistribution",
    distance_measure_parameters: Dict,
) -> float:
    forward = compute_clipped_negative_log_likelihood(
        target_distribution, measured_distribution, distance_measure_parameters
    )
    backward = compute_clipped_negative_log_likelihood(
        measured_distribution, target_distribution, distance_measure_parameters
    )
    return forward / 2 + backward / 2
''')
P = "distributions/mmd.py"
F(P, "compute_rbf_kernel", '''
def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.ndarray:
    difference = x_i[:, None] - y_j[None, :]
    try:
        gamma = 1.0 / (2 * sigma)
    except ZeroDivisionError as error:
        print("Handling run-time error:", error)
        raise
    return np.exp(-gamma * np.abs(difference) ** 2)
''')
F(P, "compute_mmd", '''
def compute_mmd(
    target_distribution: "MeasurementOutcomeDistribution",
    measured_distribution: "MeasurementOutcomeDistribution",
    distance_measure_parameters: Dict,
) -> float:
    sigma = distance_measure_parameters.get("sigma", 1.0)
    target_dict = target_distribution.distribution_dict
    measured_dict = measured_distribution.distribution_dict
    all_keys = set(target_dict.keys()).union(measured_dict.keys())

    target_values = [target_dict.get(bitstring, 0) for bitstring in all_keys]
    measured_values = [measured_dict.get(bitstring, 0) for bitstring in all_keys]

    largest_digit = max(digit for item in all_keys for digit in item)
    base = max(2, largest_digit + 1)
    basis = np.asarray(
        [reduce(lambda acc, digit: base * acc + digit, item, 0) for item in all_keys],
        dtype=float,
    )

    if hasattr(sigma, "__len__"):
        kernel_matrix = compute_multi_rbf_kernel(basis, basis, sigma)
    else:
        kernel_matrix = compute_rbf_kernel(basis, basis, sigma)

    diff = np.array(target_values) - np.array(measured_values)
    return diff.dot(kernel_matrix.dot(diff))
''')

P = "api/circuit_runner.py"
F(P, "BaseCircuitRunner.run_and_measure", '''
def run_and_measure(self, circuit: Circuit, n_samples: int) -> Measurements:
    _validate_n_samples(n_samples)
    result = self._run_and_measure(circuit, n_samples)
    self._n_jobs_executed += 1
    self._n_circuits_executed += 1
    return result
''', pre='''
def _validate_n_samples(n_samples):
    if n_samples <= 0:
        raise ValueError(f"Number of samples has to be positive, got {n_samples}")
''')
F(P, "BaseCircuitRunner.run_batch_and_measure", '''
def run_batch_and_measure(
    self, circuits_batch: Sequence[Circuit], n_samples: Union[int, Sequence[int]]
) -> List[Measurements]:
    samples_per_circuit: Sequence[int]
    if isinstance(n_samples, int):
        samples_per_circuit = [n_samples] * len(circuits_batch)
    else:
        samples_per_circuit = n_samples

    batch_size = len(circuits_batch)
    if batch_size != len(samples_per_circuit):
        raise ValueError(
            "Number of samples has to be an integer or a sequence of length "
            f"equal to the length of batch. Length of batch: {batch_size}, "
            f"length of n_samples: {len(samples_per_circuit)}."
        )

    for n in samples_per_circuit:
        if n <= 0:
            raise ValueError(
                f"All numbers of samples have to be positive. Got: {n_samples}"
            )

    return self._run_batch_and_measure(circuits_batch, samples_per_circuit)
''')
F(P, "BaseCircuitRunner._run_batch_and_measure", '''
def _run_batch_and_measure(
    self, batch: Sequence[Circuit], samples_per_circuit: Sequence[int]
):
    results = []
    for circuit, n in zip(batch, samples_per_circuit):
        results.append(self.run_and_measure(circuit, n))
    return results
''')
F(P, "BaseCircuitRunner.get_measurement_outcome_distribution", '''
def get_measurement_outcome_distribution(
    self, circuit: Circuit, n_samples: Optional[int]
) -> MeasurementOutcomeDistribution:
    if n_samples is not None:
        return self.run_and_measure(circuit, n_samples).get_distribution()
    raise ValueError(
        "This runner needs n_samples to compute measurement outcome" "distribution"
    )
''')
P = "api/wavefunction_simulator.py"
F(P, "BaseWavefunctionSimulator.get_wavefunction", '''
def get_wavefunction(
    self, circuit: Circuit, initial_state: Optional[StateVector] = None
) -> Wavefunction:
    state = initial_state
    if state is None:
        state = np.zeros(2**circuit.n_qubits)
        state[0] = 1

    for is_supported, subcircuit in split_circuit(circuit, self.is_natively_supported):
        self._n_jobs_executed += 1
        if not is_supported:
            for operation in subcircuit.operations:
                state = operation.apply(state)
            continue
        self._n_circuits_executed += 1
        state = self._get_wavefunction_from_native_circuit(subcircuit, state)

    return Wavefunction(state)
''')
F(P, "BaseWavefunctionSimulator.get_wavefunction", '''
def get_wavefunction(
    self, circuit: Circuit, initial_state: Optional[StateVector] = None
) -> Wavefunction:
    state = _zero_state(circuit.n_qubits) if initial_state is None else initial_state
    parts = split_circuit(circuit, self.is_natively_supported)
    for is_supported, subcircuit in parts:
        self._n_jobs_executed += 1
        if is_supported:
            self._n_circuits_executed += 1
            state = self._get_wavefunction_from_native_circuit(subcircuit, state)
        else:
            state = _apply_operations(subcircuit, state)
    return Wavefunction(state)
''', pre='''
def _zero_state(n_qubits):
    state = np.zeros(2**n_qubits)
    state[0] = 1
    return state


def _apply_operations(circuit, state):
    for operation in circuit.operations:
        state = operation.apply(state)
    return state
''', name="gwf2")
F(P, "BaseWavefunctionSimulator._run_and_measure", '''
def _run_and_measure(self, circuit: Circuit, n_samples: int) -> Measurements:
    if len(circuit.free_symbols) > 0:
        raise ValueError("Cannot sample from circuit with unbound free symbols")

    samples = sample_from_wavefunction(
        self.get_wavefunction(circuit), n_samples, seed=self.seed
    )
    return Measurements(samples)
''')
F(P, "BaseWavefunctionSimulator.get_measurement_outcome_distribution", '''
def get_measurement_outcome_distribution(
    self, circuit: Circuit, n_samples: Optional[int] = None
) -> MeasurementOutcomeDistribution:
    if n_samples is not None:
        return self.run_and_measure(circuit, n_samples).get_distribution()

    probabilities = self.get_wavefunction(circuit).get_probabilities()
    return create_bitstring_distribution_from_probability_distribution(probabilities)
''')
P = "runners/symbolic_simulator.py"
F(P, "SymbolicSimulator._get_wavefunction_from_native_circuit", '''
def _get_wavefunction_from_native_circuit(
    self, circuit: Circuit, initial_state: StateVector
) -> StateVector:
    return reduce(
        lambda state, operation: operation.apply(state),
        circuit.operations,
        initial_state,
    )
''', imports="from functools import reduce")
P = "runners/trackers.py"
F(P, "MeasurementTrackingBackend.record_raw_measurement_data", '''
def record_raw_measurement_data(
    self, circuit: Circuit, measurement: Measurements
) -> None:
    bitstrings = measurement.bitstrings
    raw_data_dict = dict(
        data_type="measurement",
        device=self.type,
        circuit=to_dict(circuit),
        counts=measurement.get_counts(),
        number_of_gates=len(circuit.operations),
        number_of_shots=len(bitstrings),
    )
    if self.record_bitstrings:
        raw_data_dict["bitstrings"] = [
            [int(bit) for bit in bitstring] for bitstring in bitstrings
        ]
    self.raw_data.append(raw_data_dict)
''')
F(P, "MeasurementTrackingBackend.save_raw_data", '''
def save_raw_data(self) -> None:
    data = {"raw-data": self.raw_data}
    with open(self.raw_data_file_name, "w+") as f:
        f.write(json.dumps(data))
    self.raw_data = []
''')
F(P, "MeasurementTrackingBackend.run_batch_and_measure", '''
def run_batch_and_measure(
    self, circuits: Sequence[Circuit], n_samples: Union[int, Sequence[int]]
) -> List[Measurements]:
    measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
    self._n_jobs_executed += 1
    self._n_circuits_executed += len(circuits)
    for i, measurement in enumerate(measurements):
        self.record_raw_measurement_data(circuits[i], measurement)
    self.save_raw_data()
    return measurements
''')
P = "estimation/_estimation.py"
F(P, "evaluate_estimation_circuits", '''
def evaluate_estimation_circuits(
    estimation_tasks: List[EstimationTask],
    symbols_maps: List[Dict[sympy.Symbol, float]],
) -> List[EstimationTask]:
    bound_tasks = []
    for task, symbols_map in zip(estimation_tasks, symbols_maps):
        bound_circuit = task.circuit.bind(symbols_map)
        bound_tasks.append(
            EstimationTask(task.operator, bound_circuit, task.number_of_shots)
        )
    return bound_tasks
''')
F(P, "split_estimation_tasks_to_measure", '''
def split_estimation_tasks_to_measure(
    estimation_tasks: List[EstimationTask],
) -> Tuple[List[EstimationTask], List[EstimationTask], List[int], List[int]]:
    indices_to_measure = []
    indices_not_to_measure = []
    for i, task in enumerate(estimation_tasks):
        if _needs_measurement(task):
            indices_to_measure.append(i)
        else:
            indices_not_to_measure.append(i)
    return (
        [estimation_tasks[i] for i in indices_to_measure],
        [estimation_tasks[i] for i in indices_not_to_measure],
        indices_to_measure,
        indices_not_to_measure,
    )
''', pre='''
def _needs_measurement(task):
    return not (task.operator.is_constant or task.number_of_shots == 0)
''')
F(P, "split_estimation_tasks_to_measure", '''
def split_estimation_tasks_to_measure(
    estimation_tasks: List[EstimationTask],
) -> Tuple[List[EstimationTask], List[EstimationTask], List[int], List[int]]:
    to_measure = []
    not_to_measure = []
    for i, task in enumerate(estimation_tasks):
        skip = task.operator.is_constant or task.number_of_shots == 0
        (not_to_measure if skip else to_measure).append((i, task))
    return (
        [task for _, task in to_measure],
        [task for _, task in not_to_measure],
        [i for i, _ in to_measure],
        [i for i, _ in not_to_measure],
    )
''', name="split2")
F(P, "evaluate_non_measured_estimation_tasks", '''
def evaluate_non_measured_estimation_tasks(
    estimation_tasks: List[EstimationTask],
) -> List[ExpectationValues]:
    return [_evaluate_non_measured_task(task) for task in estimation_tasks]
''', pre='''
def _evaluate_non_measured_task(task):
    coefficient: complex = 0.0
    if task.operator.is_constant:
        coefficient = sum(term.coefficient for term in task.operator.terms)
    elif task.number_of_shots is not None and task.number_of_shots > 0:
        raise RuntimeError(
            "An EstimationTask required shots but was classified as "
            "a non-measured task"
        )
    return ExpectationValues(
        np.asarray([coefficient]),
        correlations=[np.asarray([[0.0]])],
        estimator_covariances=[np.asarray([[0.0]])],
    )
''')
F(P, "estimate_expectation_values_by_averaging", '''
def estimate_expectation_values_by_averaging(
    runner: CircuitRunner,
    estimation_tasks: List[EstimationTask],
) -> List[ExpectationValues]:
    (
        tasks_to_measure,
        tasks_not_to_measure,
        indices_to_measure,
        indices_not_to_measure,
    ) = split_estimation_tasks_to_measure(estimation_tasks)

    non_measured = evaluate_non_measured_estimation_tasks(tasks_not_to_measure)
    measured = _measure(runner, tasks_to_measure) if tasks_to_measure else []

    n_tasks = len(tasks_not_to_measure) + len(tasks_to_measure)
    full_expectation_values: List[Optional[ExpectationValues]] = [None] * n_tasks
    for ex_val, final_index in zip(non_measured, indices_not_to_measure):
        full_expectation_values[final_index] = ex_val
    for ex_val, final_index in zip(measured, indices_to_measure):
        full_expectation_values[final_index] = ex_val

    return cast(List[ExpectationValues], full_expectation_values)
''', pre='''
def _measure(runner, tasks):
    circuits, operators, shots_per_circuit = zip(
        *[(task.circuit, task.operator, task.number_of_shots) for task in tasks]
    )
    measurements_list = runner.run_batch_and_measure(circuits, shots_per_circuit)
    return [
        expectation_values_to_real(measurements.get_expectation_values(operator))
        for operator, measurements in zip(operators, measurements_list)
    ]
''')
F(P, "estimate_expectation_values_by_averaging", '''
def estimate_expectation_values_by_averaging(
    runner: CircuitRunner,
    estimation_tasks: List[EstimationTask],
) -> List[ExpectationValues]:
    (
        tasks_to_measure,
        tasks_not_to_measure,
        indices_to_measure,
        indices_not_to_measure,
    ) = split_estimation_tasks_to_measure(estimation_tasks)

    non_measured = evaluate_non_measured_estimation_tasks(tasks_not_to_measure)

    measured = []
    if tasks_to_measure:
        circuits = tuple(task.circuit for task in tasks_to_measure)
        shots = tuple(task.number_of_shots for task in tasks_to_measure)
        measurements_list = runner.run_batch_and_measure(circuits, shots)
        for task, measurements in zip(tasks_to_measure, measurements_list):
            expectation_values = measurements.get_expectation_values(task.operator)
            measured.append(expectation_values_to_real(expectation_values))

    n_tasks = len(tasks_not_to_measure) + len(tasks_to_measure)
    results: List[Optional[ExpectationValues]] = [None for _ in range(n_tasks)]
    for final_index, ex_val in zip(indices_not_to_measure, non_measured):
        results[final_index] = ex_val
    for final_index, ex_val in zip(indices_to_measure, measured):
        results[final_index] = ex_val
    return cast(List[ExpectationValues], results)
''', name="estavg2")
F(P, "calculate_exact_expectation_values", '''
def calculate_exact_expectation_values(
    runner: WavefunctionSimulator,
    estimation_tasks: List[EstimationTask],
) -> List[ExpectationValues]:
    results = []
    for task in estimation_tasks:
        value = runner.get_exact_expectation_values(task.circuit, task.operator)
        results.append(ExpectationValues(np.asarray([value])))
    return results
''')
P = "decompositions/_decomposition.py"
F(P, "decompose_operation", '''
def decompose_operation(
    operation: OperationType,
    decomposition_rules: Sequence[DecompositionRule[OperationType]],
):
    if len(decomposition_rules) == 0:
        return [operation]

    current_rule = decomposition_rules[0]
    remaining_rules = decomposition_rules[1:]

    if current_rule.predicate(operation):
        new_operations = current_rule.production(operation)
    else:
        new_operations = [operation]

    result = []
    for op in new_operations:
        result.extend(decompose_operation(op, remaining_rules))
    return result
''')
F(P, "decompose_operations", '''
def decompose_operations(
    operations: Iterable[OperationType],
    decomposition_rules: Sequence[DecompositionRule[OperationType]],
):
    decomposed = []
    for operation in operations:
        decomposed += decompose_operation(operation, decomposition_rules)
    return decomposed
''')
P = "decompositions/_orquestra_decompositions.py"
F(P, "U3GateToRotation.predicate", '''
def predicate(self, operation: GateOperation) -> bool:
    if not isinstance(operation, GateOperation):
        return False
    gate = operation.gate
    if gate.name == "U3":
        return True
    return isinstance(gate, ControlledGate) and gate.wrapped_gate.name == "U3"
''')
F(P, "U3GateToRotation.production", '''
def production(self, operation: GateOperation) -> Iterable[GateOperation]:
    theta, phi, lambda_ = operation.params
    gates = [RZ(phi), RY(theta), RZ(lambda_)]

    if isinstance(operation.gate, ControlledGate):
        n_controls = operation.gate.num_control_qubits
        gates = [gate.controlled(n_controls) for gate in gates]

    return reversed([gate(*operation.qubit_indices) for gate in gates])
''')
P = "evolution.py"
F(P, "time_evolution", '''
def time_evolution(
    hamiltonian: PauliRepresentation,
    time: Union[float, sympy.Expr],
    method: str = "Trotter",
    n_steps: int = 1,
) -> Circuit:
    if method != "Trotter":
        raise ValueError(f"Currently the method {method} is not supported.")

    step_time = time / n_steps if n_steps > 0 else time
    circuit = Circuit()
    for _ in range(n_steps):
        for term in hamiltonian.terms:
            circuit += time_evolution_for_term(term, step_time)
    return circuit
''')
F(P, "time_evolution_for_term", '''
def time_evolution_for_term(
    term: PauliTerm, time: Union[float, sympy.Expr]
) -> Circuit:
    if abs(term.coefficient.imag) > 1e-9:
        raise ValueError("Coefficients of terms must be real for Trotterization.")

    if term.is_constant:
        return Circuit()

    qubit_indices = sorted(term.qubits)
    basis_change = _basis_change(term, qubit_indices)

    cnot_gates = Circuit()
    for control, target in zip(qubit_indices, qubit_indices[1:]):
        cnot_gates += CNOT(control, target)

    central_gate = RZ(2 * time * term.coefficient.real)(qubit_indices[-1])
    all_z_rotation = cnot_gates + central_gate + cnot_gates.inverse()
    return basis_change + all_z_rotation + basis_change.inverse()
''', pre='''
def _basis_change(term, qubit_indices):
    circuit = Circuit()
    for qubit_id in qubit_indices:
        if term[qubit_id] == "X":
            circuit += H(qubit_id)
        elif term[qubit_id] == "Y":
            circuit += RX(np.pi / 2)(qubit_id)
    return circuit
''')
F(P, "time_evolution_for_term", '''
def time_evolution_for_term(
    term: PauliTerm, time: Union[float, sympy.Expr]
) -> Circuit:
    if abs(term.coefficient.imag) > 1e-9:
        raise ValueError("Coefficients of terms must be real for Trotterization.")

    if term.is_constant:
        return Circuit()

    qubit_indices = sorted(term.qubits)
    last = len(term.operations) - 1
    basis_change = Circuit()
    cnot_gates = Circuit()
    for i, qubit_id in enumerate(qubit_indices):
        pauli = term[qubit_id]
        if pauli == "X":
            basis_change += H(qubit_id)
        elif pauli == "Y":
            basis_change += RX(np.pi / 2)(qubit_id)
        if i != last:
            cnot_gates += CNOT(qubit_id, qubit_indices[i + 1])
        else:
            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)

    return (
        basis_change
        + cnot_gates
        + central_gate
        + cnot_gates.inverse()
        + basis_change.inverse()
    )
''', name="tet2")
F(P, "_generate_circuit_sequence", '''
def _generate_circuit_sequence(
    repeated_circuit: Circuit,
    different_circuit: Circuit,
    length: int,
    position: int,
):
    if position >= length:
        raise ValueError(f"Position {position} should be < {length}")

    operations = []
    for i in range(length):
        if i == position:
            operations.extend(different_circuit.operations)
        else:
            operations.extend(repeated_circuit.operations)
    return Circuit(operations)
''')
F(P, "time_evolution_derivatives", '''
def time_evolution_derivatives(
    hamiltonian: PauliRepresentation,
    time: float,
    method: str = "Trotter",
    n_steps: int = 1,
) -> Tuple[List[Circuit], List[float]]:
    if method != "Trotter":
        raise ValueError(f"The method {method} is currently not supported.")

    single_trotter_derivatives = []
    output_factors = []
    terms = hamiltonian.terms
    for i, term_1 in enumerate(terms):
        coefficient = term_1.coefficient
        if coefficient == 0:
            continue
        for factor in (1.0, -1.0):
            if coefficient.real != coefficient:
                warnings.warn(
                    "Only real coefficients are supported. "
                    "The imaginary part of the term {} will be ignored.".format(term_1)
                )
            r = coefficient.real / n_steps
            output_factors.append(r * factor)
            shift = factor * (np.pi / (4.0 * r))
            output = Circuit()
            for j, term_2 in enumerate(terms):
                term_time = time + shift if i == j else time
                output += time_evolution_for_term(term_2, term_time / n_steps)
            single_trotter_derivatives.append(output)

    if n_steps <= 1:
        return single_trotter_derivatives, output_factors

    repeated_circuit = time_evolution(
        hamiltonian, time / n_steps, method="Trotter", n_steps=1
    )
    output_circuits = []
    final_factors = []
    for position in range(n_steps):
        for factor, different_circuit in zip(
            output_factors, single_trotter_derivatives
        ):
            output_circuits.append(
                _generate_circuit_sequence(
                    repeated_circuit, different_circuit, n_steps, position
                )
            )
            final_factors.append(factor)
    return output_circuits, final_factors
''')
P = "utils.py"
F(P, "convert_dict_to_array", '''
def convert_dict_to_array(dictionary: dict) -> np.ndarray:
    real = np.array(dictionary["real"])
    imag = dictionary.get("imag")
    if not imag:
        return real
    return real + 1j * np.array(imag)
''')
F(P, "convert_array_to_dict", '''
def convert_array_to_dict(array: np.ndarray) -> dict:
    if not np.iscomplexobj(array):
        return {"real": array.tolist()}
    return {"real": array.real.tolist(), "imag": array.imag.tolist()}
''')
F(P, "dec2bin", '''
def dec2bin(number: int, length: int) -> List[int]:
    if number == 0 and length == 0:
        return []
    if 2**length < number:
        sys.exit(
            "Insufficient number of bits for representing the number {}".format(number)
        )
    bits = [int(x) for x in bin(number)[2:]]
    if len(bits) < length:
        bits = [0] * (length - len(bits)) + bits
    return bits
''')
F(P, "bin2dec", '''
def bin2dec(x: List[int]) -> int:
    dec = 0
    coeff = 1
    for bit in reversed(x):
        dec += coeff * bit
        coeff *= 2
    return dec
''')
F(P, "is_unitary", '''
def is_unitary(u: np.ndarray, tol=1e-15) -> bool:
    n_rows, n_cols = np.array(u).shape[0], np.array(u).shape[1]
    if n_rows != n_cols:
        raise Exception("Input matrix is not square.")
    return is_identity(np.dot(np.array(u).T.conj(), u), tol)
''')
F(P, "sample_from_probability_distribution", '''
def sample_from_probability_distribution(
    probability_distribution: dict, n_samples: int
) -> collections.Counter:
    if not isinstance(probability_distribution, dict):
        raise RuntimeError(
            "Probability distribution should be a dictionary with key value \\
        being the thing being sampled and the value being probability of getting \\
        sampled "
        )
    keys = list(probability_distribution.keys())
    probabilities = list(probability_distribution.values())
    keys_as_array = np.empty(len(probability_distribution), dtype=object)
    keys_as_array[:] = keys
    return collections.Counter(
        np.random.choice(keys_as_array, n_samples, replace=True, p=probabilities)
    )
''')
F(P, "convert_bitstrings_to_tuples", '''
def convert_bitstrings_to_tuples(bitstrings: Iterable[str]) -> List[Tuple[int, ...]]:
    return list(map(bitstring_to_tuple, bitstrings))
''')
F(P, "bitstring_to_tuple", '''
@lru_cache()
def bitstring_to_tuple(bitstring: str) -> Tuple[int, ...]:
    return tuple(map(int, reversed(bitstring)))
''')
F(P, "tuple_to_bitstring", '''
@lru_cache()
def tuple_to_bitstring(tup: Tuple[int, ...]) -> str:
    return "".join(str(bit) for bit in tup)
''')
F(P, "ValueEstimate.__eq__", '''
def __eq__(self, other):
    values_equal = super().__eq__(other)
    if values_equal is NotImplemented:
        return values_equal
    other_precision = getattr(other, "precision", None)
    return values_equal and self.precision == other_precision
''')
F(P, "ValueEstimate.to_dict", '''
def to_dict(self):
    return {"value": self._as_python(), "precision": self._python_precision()}
''', post='''
def _as_python(self):
    if type(self).__module__ == np.__name__:
        return self.value.item()
    return self


def _python_precision(self):
    if type(self.precision).__module__ == np.__name__:
        return self.precision.item()
    return self.precision
''')
F(P, "ValueEstimate.from_dict", '''
@classmethod
def from_dict(cls, dictionary):
    value = dictionary["value"]
    if "precision" not in dictionary:
        return cls(value)
    return cls(value, dictionary["precision"])
''')
F(P, "create_symbols_map", '''
def create_symbols_map(
    symbols: List[sympy.Symbol], params: np.ndarray
) -> Dict[sympy.Symbol, float]:
    n_symbols, n_params = len(symbols), len(params)
    if n_symbols != n_params:
        raise ValueError(
            "Length of symbols: {0} doesn't match length of params: {1}".format(
                n_symbols, n_params
            )
        )
    return dict(zip(symbols, params.tolist()))
''')
F(P, "save_generic_dict", '''
def save_generic_dict(dictionary: Dict, filename: AnyPath):
    dictionary_stored = dict(dictionary)
    with open(filename, "w") as f:
        f.write(json.dumps(dictionary_stored, indent=2))
''')
F(P, "save_nmeas_estimate", '''
def save_nmeas_estimate(
    nmeas: float,
    nterms: int,
    filename: AnyPath,
    frame_meas: Optional[np.ndarray] = None,
) -> None:
    data: Dict[str, Any] = {"K": nmeas, "nterms": nterms}
    if frame_meas is not None:
        data["frame_meas"] = convert_array_to_dict(frame_meas)

    with open(filename, "w") as f:
        f.write(json.dumps(data, indent=2))
''')
F(P, "load_nmeas_estimate", '''
def load_nmeas_estimate(
    filename: LoadSource,
) -> Tuple[float, int, Optional[np.ndarray]]:
    with ensure_open(filename) as f:
        data = json.load(f)

    frame_meas = None
    if "frame_meas" in data:
        frame_meas = convert_dict_to_array(data["frame_meas"])
    return data["K"], data["nterms"], frame_meas
''')
F(P, "scale_and_discretize", '''
def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
    scale_factor = total / sum(values)
    scaled = [value * scale_factor for value in values]
    floors = [np.floor(value) for value in scaled]
    remainders = [value - floor for value, floor in zip(scaled, floors)]
    order = np.argsort(remainders)[::-1]
    n_missing = int(round(total - sum(floors)))
    for index in range(n_missing):
        floors[order[index]] += 1

    result = [int(value) for value in floors]
    assert sum(result) == total, "The scaled list does not sum to the desired total."
    return result
''')
F(P, "get_ordered_list_of_bitstrings", '''
def get_ordered_list_of_bitstrings(num_qubits: int) -> List[str]:
    bitstrings = []
    for i in range(2**num_qubits):
        bitstring = "{0:b}".format(i)
        bitstrings.append(bitstring.zfill(num_qubits))
    return bitstrings
''')
F(P, "ensure_open", '''
@contextmanager
def ensure_open(
    path_like: Union[LoadSource, DumpTarget], mode="r", encoding="utf-8"
):
    if isinstance(path_like, (str, bytes, os.PathLike)):
        if "b" in mode:
            encoding = None
        with open(path_like, mode, encoding=encoding) as f:
            yield f
        return

    needs_write = bool(set(mode).intersection("wxa+"))
    if needs_write and not path_like.writable():
        raise ValueError(f"File isn't writable, can't ensure mode {mode}")
    yield path_like
''')
P = "operators/_io.py"
F(P, "convert_dict_to_op", '''
def convert_dict_to_op(dictionary: dict) -> PauliSum:
    full_operator = PauliSum()
    for term_dict in dictionary["terms"]:
        operator = [(op["op"], op["qubit"]) for op in term_dict["pauli_ops"]]
        coefficient = _parse_coefficient(term_dict["coefficient"])
        full_operator += PauliTerm.from_iterable(operator, coefficient)
    return full_operator
''', pre='''
def _parse_coefficient(coefficient_dict):
    coefficient = coefficient_dict["real"]
    if coefficient_dict.get("imag"):
        coefficient += 1j * coefficient_dict["imag"]
    return coefficient
''')
F(P, "convert_op_to_dict", '''
def convert_op_to_dict(op: PauliRepresentation) -> Dict[str, Any]:
    return {"terms": [_term_to_dict(term) for term in op.terms]}
''', pre='''
def _term_to_dict(term):
    pauli_ops = [{"qubit": qubit, "op": name} for qubit, name in term.operations]
    coefficient = {"real": term.coefficient.real}
    if isinstance(term.coefficient, complex):
        coefficient["imag"] = term.coefficient.imag
    return {"pauli_ops": pauli_ops, "coefficient": coefficient}
''')
F(P, "save_operator_set", '''
def save_operator_set(operator_set: List[PauliSum], filename: AnyPath) -> None:
    dictionary = {"operators": [convert_op_to_dict(op) for op in operator_set]}
    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
''')
F(P, "load_operator_set", '''
def load_operator_set(file: LoadSource) -> List[PauliSum]:
    with ensure_open(file) as f:
        data = json.load(f)
    return [convert_dict_to_op(operator_dict) for operator_dict in data["operators"]]
''')
F(P, "get_pauli_strings", '''
def get_pauli_strings(operator: PauliRepresentation) -> List[str]:
    return [
        "".join(f"{op}{qubit}" for qubit, op in sorted(term.operations))
        for term in operator.terms
    ]
''')
P = "operators/_utils.py"
F(P, "evaluate_operator", '''
def evaluate_operator(
    operator: PauliRepresentation, expectation_values
) -> ValueEstimate:
    total = sum(
        np.real(term.coefficient * value)
        for term, value in zip(operator.terms, expectation_values.values)
    )
    return ValueEstimate(total)
''')
F(P, "evaluate_operator_list", '''
def evaluate_operator_list(
    operator_list: List[PauliRepresentation], expectation_values
) -> ValueEstimate:
    total = 0
    all_terms = [term for operator in operator_list for term in operator.terms]
    for term_index, term in enumerate(all_terms):
        total += np.real(term.coefficient * expectation_values.values[term_index])
    return ValueEstimate(total)
''')
F(P, "reverse_qubit_order", '''
def reverse_qubit_order(
    qubit_operator: PauliRepresentation, n_qubits: Optional[int] = None
):
    if n_qubits is None:
        n_qubits = qubit_operator.n_qubits
    if n_qubits < qubit_operator.n_qubits:
        raise ValueError("Invalid number of qubits specified.")

    reversed_op = PauliSum()
    for term in qubit_operator.terms:
        new_term = {
            n_qubits - 1 - qubit_num: operator_str
            for qubit_num, operator_str in term.operations
        }
        reversed_op += PauliTerm(new_term, term.coefficient)
    return reversed_op
''')
F(P, "get_pauliop_from_coeffs_and_labels", '''
def get_pauliop_from_coeffs_and_labels(
    coeffs: List[float], labels: List[List[int]]
) -> PauliSum:
    symbols = {1: "X", 2: "Y", 3: "Z"}
    output = PauliSum()
    for i, label in enumerate(labels):
        string_term = ""
        for ind, elem in enumerate(label):
            if elem in symbols:
                string_term += f"*{symbols[elem]}{ind}"
        output += PauliTerm(f"{coeffs[i]}{string_term}")
    return output
''')
F(P, "get_expectation_value", '''
def get_expectation_value(
    qubit_op: PauliRepresentation,
    wavefunction: Wavefunction,
    reverse_operator: bool = False,
) -> complex:
    amplitudes = wavefunction.amplitudes
    n_qubits = amplitudes.shape[0].bit_length() - 1
    operator = (
        reverse_qubit_order(qubit_op, n_qubits=n_qubits)
        if reverse_operator
        else qubit_op
    )
    return expectation(get_sparse_operator(operator, n_qubits=n_qubits), amplitudes)
''')
P = "operators/_openfermion_utils/operator_utils.py"
F(P, "hermitian_conjugated", '''
def hermitian_conjugated(operator):
    if isinstance(operator, PauliTerm):
        return operator.copy(operator.coefficient.conjugate())
    if isinstance(operator, PauliSum):
        conjugate_operator = PauliSum()
        for term in operator.terms:
            conjugate_operator += term.copy(term.coefficient.conjugate())
        return conjugate_operator
    if isinstance(operator, spmatrix):
        return operator.getH()
    if isinstance(operator, numpy.ndarray):
        return operator.T.conj()
    raise TypeError(
        "Taking the hermitian conjugate of a {} is not supported.".format(
            type(operator).__name__
        )
    )
''')
P = "operators/_openfermion_utils/sparse_tools.py"
F(P, "get_sparse_operator", '''
def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] = None):
    if not isinstance(operator, (PauliSum, PauliTerm)):
        raise TypeError(
            "Failed to convert a {} to a sparse matrix.".format(type(operator).__name__)
        )

    if n_qubits is None:
        n_qubits = operator.n_qubits
    if n_qubits < operator.n_qubits:
        raise ValueError("Invalid number of qubits specified.")

    dim = 2**n_qubits
    values_list: List[numpy.ndarray] = []
    row_list: List[numpy.ndarray] = []
    column_list: List[numpy.ndarray] = []

    for qubit_term in operator.terms:
        sparse_matrix = _term_matrix(qubit_term, n_qubits)
        values_list.append(sparse_matrix.tocoo(copy=False).data)
        column, row = sparse_matrix.nonzero()
        column_list.append(column)
        row_list.append(row)

    if not values_list:
        return scipy.sparse.csc_matrix((dim, dim), dtype=complex)

    values_list = numpy.concatenate(values_list)
    row_list = numpy.concatenate(row_list)
    column_list = numpy.concatenate(column_list)
    sparse_operator = scipy.sparse.coo_matrix(
        (values_list, (row_list, column_list)), shape=(dim, dim)
    ).tocsc(copy=False)
    sparse_operator.eliminate_zeros()
    return sparse_operator
''', pre='''
def _identity(n_qubits):
    return scipy.sparse.identity(2**n_qubits, dtype=complex, format="csc")


def _term_matrix(qubit_term, n_qubits):
    tensor_factor = 0
    sparse_operators = [qubit_term.coefficient]
    for qubit_num, operator_str in sorted(qubit_term.operations):
        if qubit_num > tensor_factor:
            sparse_operators.append(_identity(qubit_num - tensor_factor))
        sparse_operators.append(pauli_matrix_map[operator_str])
        tensor_factor = qubit_num + 1

    if tensor_factor < n_qubits or not qubit_term:
        sparse_operators.append(_identity(n_qubits - tensor_factor))

    return _kronecker_operators(sparse_operators)
''')
F(P, "expectation", '''
def expectation(operator, state):
    if isinstance(state, numpy.ndarray):
        if len(state.shape) != 1:
            return numpy.dot(numpy.conjugate(state.T), operator * state)[0, 0]
        return numpy.dot(numpy.conjugate(state), operator * state)

    if not isinstance(state, scipy.sparse.spmatrix):
        raise ValueError("Input state must be a numpy array or a sparse matrix.")

    if isinstance(operator, scipy.sparse.linalg.LinearOperator):
        raise ValueError(
            "Taking the expectation of a LinearOperator with a density matrix is "
            "not supported."
        )
    product = state * operator
    return numpy.sum(product.diagonal())
''')
P = "circuits/symbolic/_sorting.py"
F(P, "natural_key_revlex", '''
def natural_key_revlex(symbol):
    key = natural_key(symbol)
    key.reverse()
    return key
''')
F(P, "natural_key_fixed_names_order", '''
def natural_key_fixed_names_order(names_order):
    symbol_weights = {}
    for i, name in enumerate(names_order):
        symbol_weights[name] = i

    def _key(symbol):
        name, index = symbol.name.split("_")
        weight = symbol_weights[name]
        return int(index), weight

    return _key
''')
P = "circuits/symbolic/sympy_expressions.py"
F(P, "is_multiplication_by_reciprocal", '''
def is_multiplication_by_reciprocal(sympy_mul: sympy.Mul) -> bool:
    args = sympy_mul.args
    if len(args) != 2:
        return False
    second = args[1]
    return isinstance(second, sympy.Pow) and second.args[1] == -1
''')
F(P, "power_from_sympy_pow", '''
@expression_from_sympy.register
def power_from_sympy_pow(power: sympy.Pow):
    base, exponent = power.args
    if exponent == -1:
        return FunctionCall("div", (1, expression_from_sympy(base)))
    if exponent == 0.5:
        return FunctionCall("sqrt", (expression_from_sympy(base),))
    return FunctionCall("pow", expression_from_sympy(power.args))
''')
F(P, "addition_from_sympy_add", '''
@expression_from_sympy.register
def addition_from_sympy_add(add: sympy.Add):
    if not is_addition_of_negation(add):
        return FunctionCall("add", expression_from_sympy(add.args))
    minuend = expression_from_sympy(add.args[0])
    subtrahend = expression_from_sympy(_negate_sympy_expr(add.args[1]))
    return FunctionCall("sub", (minuend, subtrahend))
''')
F(P, "expression_tuple_from_tuple_of_sympy_args", '''
@expression_from_sympy.register
def expression_tuple_from_tuple_of_sympy_args(args: tuple):
    return tuple(map(expression_from_sympy, args))
''')
P = "circuits/symbolic/translations.py"
F(P, "translate_function_call", '''
@translate_expression.register
def translate_function_call(function_call: FunctionCall, dialect: ExpressionDialect):
    name = function_call.name
    if name not in dialect.known_functions:
        raise ValueError(f"Function {name} is unknown in this dialect.")
    function = dialect.known_functions[name]
    args = translate_tuple(function_call.args, dialect)
    return function(*args)
''')

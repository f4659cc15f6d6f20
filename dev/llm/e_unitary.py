P = "circuits/_unitary_tools.py"
F(P, "_permute", '''
def _permute(vector, permutation):
    permuted = []
    for index in permutation:
        permuted.append(vector[index])
    return permuted
''')
F(P, "_basis_bitstring", '''
def _basis_bitstring(i, num_qubits):
    bits = format(i, "b").zfill(num_qubits)
    return [int(bit) for bit in bits]
''')
F(P, "_basis_bitstring", '''
def _basis_bitstring(i, num_qubits):
    binary = bin(i)[2:]
    padded = binary.zfill(num_qubits)
    return list(map(int, padded))
''', name="bb2")
F(P, "_bitstring_to_sympy_dense_vector", '''
def _bitstring_to_sympy_dense_vector(state):
    zero = sympy.Matrix([1, 0])
    one = sympy.Matrix([0, 1])
    factors = [(zero, one)[bit] for bit in state]
    return sympy.kronecker_product(*factors)
''')
F(P, "_bitstring_to_numpy_dense_vector", '''
def _bitstring_to_numpy_dense_vector(state):
    basis = [np.array([1, 0]), np.array([0, 1])]
    factors = [basis[bit] for bit in state]
    return reduce(np.kron, factors)
''')
F(P, "_permutation_matrix", '''
def _permutation_matrix(target_indices_order, zeros, bitstring_to_dense_vector):
    num_qubits = len(target_indices_order)
    dim = 2**num_qubits
    expected = list(range(num_qubits))
    if expected != sorted(target_indices_order):
        raise ValueError("Not all qubits given in permutation.")
    perm_matrix = zeros((dim, dim))
    for i in range(dim):
        perm_matrix[:, i] = bitstring_to_dense_vector(
            _permute(_basis_bitstring(i, num_qubits), target_indices_order)
        )
    return perm_matrix
''')
F(P, "_permutation_making_qubits_adjacent", '''
def _permutation_making_qubits_adjacent(qubit_indices, num_qubits):
    permutation = list(qubit_indices)
    for i in range(num_qubits):
        if i not in qubit_indices:
            permutation.append(i)
    return permutation
''')
F(P, "_lift_matrix", '''
def _lift_matrix(
    matrix,
    qubit_indices,
    num_qubits,
    zeros,
    eye,
    kronecker_product,
    bitstring_to_dense_vector,
):
    smallest = min(qubit_indices)
    largest = max(qubit_indices)
    span = largest - smallest + 1
    inner_permutation = _permutation_making_qubits_adjacent(
        [index - smallest for index in qubit_indices], span
    )
    perm_matrix = _permutation_matrix(
        inner_permutation, zeros, bitstring_to_dense_vector
    )
    n_idle = span - len(qubit_indices)
    inner_gate_matrix = kronecker_product(matrix, eye(2**n_idle))
    inner_matrix = perm_matrix.transpose() @ inner_gate_matrix @ perm_matrix
    left = kronecker_product(eye(2**smallest), inner_matrix)
    return kronecker_product(left, eye(2 ** (num_qubits - largest - 1)))
''')
F(P, "_lift_matrix_numpy", '''
def _lift_matrix_numpy(matrix, qubits, num_qubits):
    return _lift_matrix(
        matrix=np.array(matrix, dtype=complex),
        qubit_indices=qubits,
        num_qubits=num_qubits,
        zeros=np.zeros,
        eye=np.eye,
        kronecker_product=np.kron,
        bitstring_to_dense_vector=_bitstring_to_numpy_dense_vector,
    )
''')
F(P, "_lift_matrix_sympy", '''
def _lift_matrix_sympy(matrix, qubits, num_qubits):
    def _zeros(size):
        return sympy.zeros(*size)

    return _lift_matrix(
        matrix,
        qubits,
        num_qubits,
        _zeros,
        sympy.eye,
        sympy.kronecker_product,
        _bitstring_to_sympy_dense_vector,
    )
''')
P = "circuits/_generators.py"
F(P, "create_layer_of_gates", '''
def create_layer_of_gates(
    number_of_qubits: int,
    gate_factory: Union[GatePrototype, Gate],
    parameters: Optional[np.ndarray] = None,
) -> Circuit:
    qubits = range(number_of_qubits)
    return apply_gate_to_qubits(
        circuit=Circuit(),
        qubit_indices=qubits,
        gate_factory=gate_factory,
        parameters=parameters,
    )
''')
F(P, "apply_gate_to_qubits", '''
def apply_gate_to_qubits(
    circuit: Circuit,
    qubit_indices: Collection[int],
    gate_factory: Union[GatePrototype, Gate],
    parameters: Optional[np.ndarray] = None,
) -> Circuit:
    unique_qubit_idx = set(qubit_indices)

    if len(unique_qubit_idx) != len(qubit_indices):
        warn("Duplicate qubits were passed! Duplicates will be ignored.")

    if parameters is None:
        gate = cast(Gate, gate_factory)
        for qubit in unique_qubit_idx:
            circuit = circuit + gate(qubit)
        return circuit

    assert len(parameters) == len(unique_qubit_idx)
    factory = cast(GatePrototype, gate_factory)
    for qubit, parameter in zip(unique_qubit_idx, parameters):
        gate = factory(*parameter)
        circuit = circuit + gate(qubit)
    return circuit
''')
F(P, "add_ancilla_register", '''
def add_ancilla_register(circuit: Circuit, n_ancilla_qubits: int) -> Circuit:
    extended_circuit = circuit
    first = circuit.n_qubits
    for qubit_index in range(first, first + n_ancilla_qubits):
        extended_circuit = extended_circuit + I(qubit_index)
    return extended_circuit
''')
P = "circuits/layouts.py"
F(P, "CircuitLayers.from_dict", '''
@classmethod
def from_dict(cls, data: Dict[str, List[List[Tuple]]]):
    layers = []
    for layer in data["layers"]:
        layers.append(list(map(tuple, layer)))
    return cls(layers)
''')
F(P, "CircuitConnectivity.from_dict", '''
@classmethod
def from_dict(cls, data):
    return cls(list(map(tuple, data["connectivity"])))
''')
F(P, "save_circuit_layers", '''
def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
    serialized = json.dumps(circuit_layers.to_dict())
    with open(filename, "w") as f:
        f.write(serialized)
''')
F(P, "save_circuit_connectivity", '''
def save_circuit_connectivity(circuit_connectivity, filename):
    with open(filename, "w") as f:
        f.write(json.dumps(circuit_connectivity.to_dict()))
''')
F(P, "load_circuit_connectivity", '''
def load_circuit_connectivity(file):
    return CircuitConnectivity.from_dict(_load_json(file))
''', pre='''
def _load_json(file):
    with ensure_open(file) as f:
        return json.load(f)
''')
F(P, "load_circuit_ordering", '''
def load_circuit_ordering(file):
    with ensure_open(file) as f:
        return json.load(f)["ordering"]
''')
F(P, "build_circuit_layers_and_connectivity", '''
def build_circuit_layers_and_connectivity(
    x_dimension, y_dimension=None, layer_type="nearest-neighbor"
):
    if layer_type == "nearest-neighbor":
        return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
    if layer_type == "sycamore":
        return _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension)
    ValueError("Layer type {0} is not defined".format(layer_type))
''')
F(P, "_build_circuit_layers_and_connectivity_nearest_neighbors", '''
def _build_circuit_layers_and_connectivity_nearest_neighbors(n_qubits):
    even_layer = [(index, index + 1) for index in range(0, n_qubits - 1, 2)]
    odd_layer = [(index, index + 1) for index in range(1, n_qubits - 1, 2)]
    return (
        CircuitConnectivity(even_layer + odd_layer),
        CircuitLayers([even_layer, odd_layer]),
    )
''')
F(P, "_build_circuit_layers_and_connectivity_nearest_neighbors", '''
def _build_circuit_layers_and_connectivity_nearest_neighbors(n_qubits):
    def pairs(start):
        return [(index, index + 1) for index in range(start, n_qubits - 1, 2)]

    layers = [pairs(0), pairs(1)]
    connectivity = [pair for layer in layers for pair in layer]
    return CircuitConnectivity(connectivity), CircuitLayers(layers)
''', name="nn2")
P = "circuits/_wavefunction_operations.py"
F(P, "MultiPhaseOperation.__post_init__", '''
def __post_init__(self):
    for param in self.params:
        if isinstance(param, Complex) and not _is_real(param):
            raise ValueError("MultiPhaseOperation supports only real parameters.")
''')
F(P, "MultiPhaseOperation.qubit_indices", '''
@property
def qubit_indices(self) -> Tuple[int, ...]:
    return tuple(range(int(np.log2(len(self.params)))))
''')
F(P, "MultiPhaseOperation.bind", '''
def bind(self, symbols_map) -> "MultiPhaseOperation":
    bound = [sub_symbols(param, symbols_map) for param in self.params]
    return self.replace_params(tuple(bound))
''')
F(P, "MultiPhaseOperation.apply", '''
def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
    n_params = len(self.params)
    if n_params != len(amplitude_vector):
        raise ValueError(
            f"MultiPhaseOperation with {n_params} params cannot be "
            f"applied to amplitude_vector of length {len(amplitude_vector)}."
        )

    exp_params = self._phases()
    return np.multiply(np.asarray(amplitude_vector), exp_params)
''', post='''
def _phases(self):
    try:
        return np.exp(np.asarray(self.params, dtype=float) * 1j)
    except TypeError as e:
        raise RuntimeError(
            "MultiPhaseOperation can only be applied only if all symbolic "
            "parameters are bound to real numbers."
        ) from e
''')
F(P, "MultiPhaseOperation.apply", '''
def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
    if len(amplitude_vector) != len(self.params):
        raise ValueError(
            f"MultiPhaseOperation with {len(self.params)} params cannot be "
            f"applied to amplitude_vector of length {len(amplitude_vector)}."
        )

    try:
        angles = np.asarray(self.params, dtype=float)
        exp_params = np.exp(1j * angles)
    except TypeError as e:
        raise RuntimeError(
            "MultiPhaseOperation can only be applied only if all symbolic "
            "parameters are bound to real numbers."
        ) from e
    return np.asarray(amplitude_vector) * exp_params
''', name="ap2")
F(P, "ResetOperation.replace_params", '''
def replace_params(self, new_params: Tuple[Parameter, ...]) -> "ResetOperation":
    if len(tuple(new_params)) > 0:
        raise ValueError("ResetOperation does not accept parameters.")
    (qubit_index,) = self.qubit_indices
    return ResetOperation(qubit_index)
''')
P = "wavefunction.py"
F(P, "_cast_sympy_matrix_to_numpy", '''
def _cast_sympy_matrix_to_numpy(sympy_matrix, complex=False):
    if complex:
        new_type = np.complex128
    else:
        new_type = np.float64

    try:
        array = np.array(sympy_matrix, dtype=new_type)
    except TypeError:
        array = np.array(sympy_matrix, dtype=object)
    return array.flatten()
''')
F(P, "_get_next_number_with_same_hamming_weight", '''
def _get_next_number_with_same_hamming_weight(val):
    t = (val | (val - 1)) + 1
    lowest_t = t & -t
    lowest_val = val & -val
    return t | (((lowest_t // lowest_val) >> 1) - 1)
''')
F(P, "_most_significant_set_bit", '''
def _most_significant_set_bit(val):
    return len(bin(val)[2:])
''')
F(P, "Wavefunction._check_normalization", '''
@staticmethod
def _check_normalization(arr: ParameterizedVector):
    fully_numeric = isinstance(arr, np.ndarray) or (
        isinstance(arr, Matrix) and not arr.free_symbols
    )
    if fully_numeric:
        numbers = np.array(arr, dtype=np.complex128)
    else:
        numbers = np.array(
            [elem for elem in arr if _is_number(elem)], dtype=np.complex128
        )
    probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)

    if fully_numeric and not np.isclose(probs_of_ground_entries, 1.0):
        raise ValueError("Vector does not result in a unit probability.")
    if not fully_numeric and probs_of_ground_entries > 1.0:
        raise ValueError(
            "Ground entries in vector already exceeding probability of 1.0!"
        )
''')
F(P, "Wavefunction.amplitudes", '''
@property
def amplitudes(self) -> Union[np.ndarray, Matrix]:
    vector = self._amplitude_vector
    if not isinstance(vector, Matrix):
        return vector
    return _cast_sympy_matrix_to_numpy(vector, complex=True)
''')
F(P, "Wavefunction.__setitem__", '''
def __setitem__(self, idx, val):
    old_val = copy(self._amplitude_vector[idx])

    try:
        self._amplitude_vector[idx] = val
        self._check_normalization(self._amplitude_vector)
    except Exception as e:
        self._amplitude_vector[idx] = old_val
        if isinstance(e, ValueError):
            raise ValueError("This assignment violates probability unity.")
        raise
''')
F(P, "Wavefunction.__eq__", '''
def __eq__(self, other) -> bool:
    return isinstance(other, Wavefunction) and np.array_equal(
        self.amplitudes, other.amplitudes
    )
''')
F(P, "Wavefunction.zero_state", '''
@staticmethod
def zero_state(n_qubits: int) -> "Wavefunction":
    if not isinstance(n_qubits, int):
        warn(
            f"Non-integer value {n_qubits} passed as number of qubits! "
            "Will be cast to integer."
        )
        n_qubits = int(n_qubits)

    if n_qubits < 1:
        raise ValueError(f"Invalid number of qubits in system. Got {n_qubits}.")

    dim = 2**n_qubits
    amplitudes = np.zeros(dim, dtype=np.complex128)
    amplitudes[0] = 1.0
    return Wavefunction(amplitudes)
''')
F(P, "Wavefunction.dicke_state", '''
@staticmethod
def dicke_state(n_qubits: int, hamming_weight: int) -> "Wavefunction":
    initial_wf = Wavefunction.zero_state(n_qubits)

    if not isinstance(hamming_weight, int) or hamming_weight < 0:
        raise ValueError(f"Invalid hamming weight value. Got {hamming_weight}.")

    if hamming_weight > n_qubits:
        raise ValueError(
            f"Hamming weight larger than number of qubits. \\
                    Got {hamming_weight}. Max can be {n_qubits}."
        )

    if hamming_weight == 0:
        return initial_wf

    current_value = int("1" * hamming_weight, base=2)
    indices: List[int] = []
    while _most_significant_set_bit(current_value) <= n_qubits:
        indices.append(current_value)
        current_value = _get_next_number_with_same_hamming_weight(current_value)

    wf = np.zeros(2**n_qubits, dtype=np.complex128)
    wf[indices] = 1 / np.sqrt(len(indices))
    return Wavefunction(wf)
''')
F(P, "Wavefunction.dicke_state", '''
@staticmethod
def dicke_state(n_qubits: int, hamming_weight: int) -> "Wavefunction":
    initial_wf = Wavefunction.zero_state(n_qubits)

    if hamming_weight < 0 or not isinstance(hamming_weight, int):
        raise ValueError(f"Invalid hamming weight value. Got {hamming_weight}.")

    if hamming_weight > n_qubits:
        raise ValueError(
            f"Hamming weight larger than number of qubits. \\
                    Got {hamming_weight}. Max can be {n_qubits}."
        )

    if hamming_weight == 0:
        return initial_wf

    current_value = int("1" * hamming_weight, base=2)
    indices: List[int] = [current_value]
    while True:
        current_value = _get_next_number_with_same_hamming_weight(current_value)
        if _most_significant_set_bit(current_value) > n_qubits:
            break
        indices.append(current_value)

    wf = np.zeros(2**n_qubits, dtype=np.complex128)
    wf[indices] = 1 / np.sqrt(len(indices))
    return Wavefunction(wf)
''', name="dicke2")
F(P, "Wavefunction.bind", '''
def bind(self, symbol_map: Dict[Symbol, Any]) -> "Wavefunction":
    if len(self.free_symbols) == 0:
        return self
    assert isinstance(self._amplitude_vector, Matrix)
    substituted = self._amplitude_vector.subs(symbol_map, simultaneous=True)
    cls = type(self)
    try:
        return cls(substituted)
    except ValueError:
        raise ValueError("Passed map results in a violation of probability unity.")
''')
F(P, "Wavefunction.get_outcome_probs", '''
def get_outcome_probs(self) -> Dict[str, float]:
    n_qubits = self.n_qubits
    probs = self.get_probabilities()
    outcome_probs = {}
    for i in range(len(self)):
        label = format(i, "0" + str(n_qubits) + "b")[::-1] if n_qubits else ""
        outcome_probs[label] = probs[i]
    return outcome_probs
''')
F(P, "Wavefunction.get_outcome_probs", '''
def get_outcome_probs(self) -> Dict[str, float]:
    probs = self.get_probabilities()
    labels = [self._label(i) for i in range(len(self))]
    return {label: prob for label, prob in zip(labels, probs)}
''', post='''
def _label(self, i):
    n_qubits = self.n_qubits
    if not n_qubits:
        return ""
    return format(i, f"0{n_qubits}b")[::-1]
''', name="gop2")
F(P, "flip_amplitudes", '''
def flip_amplitudes(amplitudes: Union[Sequence[complex], np.ndarray]) -> np.ndarray:
    array = np.asarray(amplitudes)
    return array[_get_ordering(len(amplitudes))]
''')
F(P, "_get_ordering", '''
@lru_cache
def _get_ordering(number_of_states: int) -> np.ndarray:
    num_bits = number_of_states.bit_length() - 1
    size = 2**num_bits
    tensor = np.arange(size).reshape([2] * num_bits)
    axes = list(range(num_bits))[::-1]
    return tensor.transpose(*axes).reshape(size)
''')
F(P, "load_wavefunction", '''
def load_wavefunction(file: LoadSource) -> Wavefunction:
    with ensure_open(file) as f:
        amplitudes = json.load(f)["amplitudes"]

    return Wavefunction(convert_dict_to_array(amplitudes))
''')
F(P, "save_wavefunction", '''
def save_wavefunction(wavefunction: Wavefunction, filename: AnyPath) -> None:
    data = {"amplitudes": convert_array_to_dict(wavefunction.amplitudes)}
    with open(filename, "w") as f:
        f.write(json.dumps(data, indent=2))
''')
F(P, "sample_from_wavefunction", '''
def sample_from_wavefunction(
    wavefunction: Wavefunction,
    n_samples: int,
    seed: Optional[int] = None,
) -> List[Tuple[int, ...]]:
    if n_samples < 1:
        raise ValueError("Must sample from wavefunction at least once.")
    rng = np.random.default_rng(seed)
    outcome_probs = wavefunction.get_outcome_probs()
    outcome_strings = tuple(outcome_probs.keys())
    probabilities = [_to_scalar(prob) for prob in outcome_probs.values()]
    if len(wavefunction) >= n_samples:
        string_samples = rng.choice(a=outcome_strings, size=n_samples, p=probabilities)
        return convert_bitstrings_to_tuples(string_samples)
    outcome_tuples = [*convert_bitstrings_to_tuples(outcome_strings), 0]
    return rng.choice(
        a=np.array(outcome_tuples, dtype=object),
        size=n_samples,
        p=[*probabilities, 0],
    ).tolist()
''', pre='''
def _to_scalar(prob):
    if isinstance(prob, (list, np.ndarray)):
        return prob[0]
    return prob
''')

C = "circuits/_circuit.py"
F(C, "_circuit_size_by_operations", '''
def _circuit_size_by_operations(operations):
    if not operations:
        return 0
    largest_index = max(max(operation.qubit_indices) for operation in operations)
    return largest_index + 1
''', name="circuit:size-nested-max")
F(C, "_circuit_size_by_operations", '''
def _circuit_size_by_operations(operations):
    if len(operations) == 0:
        return 0
    all_indices = []
    for operation in operations:
        all_indices.extend(operation.qubit_indices)
    return 1 + max(all_indices)
''', name="circuit:size-extend")
F(C, "_innermost_gate", '''
def _innermost_gate(gate):
    """Strip wrappers recursively."""
    if not hasattr(gate, "wrapped_gate"):
        return gate
    return _innermost_gate(gate.wrapped_gate)
''', name="circuit:innermost-recursive")
F(C, "_gate_is_custom", '''
def _gate_is_custom(gate):
    if not isinstance(gate, _gates.MatrixFactoryGate):
        return False
    return isinstance(gate.matrix_factory, _gates.CustomGateMatrixFactory)
''')
F(C, "Circuit.__init__", '''
def __init__(
    self,
    operations: Optional[Iterable[_operations.Operation]] = None,
    n_qubits: Optional[int] = None,
):
    if operations is None:
        self._operations = []
    else:
        self._operations = list(operations)

    if not n_qubits:
        self._n_qubits = _circuit_size_by_operations(self._operations)
        return

    _check_n_qubits(n_qubits)
    self._n_qubits = n_qubits
''', pre='''
def _check_n_qubits(n_qubits):
    as_int = int(n_qubits)
    if as_int != n_qubits:
        raise ValueError("Non-integer value passed.")
    if not as_int > 0:
        raise ValueError("Non-positive value passed.")
''')
F(C, "Circuit.__init__", '''
def __init__(
    self,
    operations: Optional[Iterable[_operations.Operation]] = None,
    n_qubits: Optional[int] = None,
):
    self._operations = [] if operations is None else [*operations]
    self._n_qubits = (
        self._validated_n_qubits(n_qubits)
        if n_qubits
        else _circuit_size_by_operations(self._operations)
    )
''', post='''
@staticmethod
def _validated_n_qubits(n_qubits):
    cast_n_qubits = int(n_qubits)
    if n_qubits != cast_n_qubits:
        raise ValueError("Non-integer value passed.")
    if cast_n_qubits <= 0:
        raise ValueError("Non-positive value passed.")
    return n_qubits
''', name="circuit:init-static")
F(C, "Circuit.free_symbols", '''
@property
def free_symbols(self) -> List[sympy.Symbol]:
    symbols_sequence: List[sympy.Symbol] = []
    for operation in self._operations:
        for symbol in operation.free_symbols:
            if symbol in symbols_sequence:
                continue
            symbols_sequence.append(symbol)
    return symbols_sequence
''', name="circuit:free-symbols-no-set")
F(C, "Circuit.free_symbols", '''
@property
def free_symbols(self) -> List[sympy.Symbol]:
    return list(
        dict.fromkeys(
            symbol
            for operation in self._operations
            for symbol in operation.free_symbols
        )
    )
''', name="circuit:free-symbols-fromkeys")
F(C, "Circuit.free_symbols", '''
@property
def free_symbols(self) -> List[sympy.Symbol]:
    seen: Dict[sympy.Symbol, None] = {}
    for op in self._operations:
        for sym in op.free_symbols:
            seen.setdefault(sym, None)
    return list(seen)
''', name="circuit:free-symbols-setdefault")
F(C, "Circuit.__eq__", '''
def __eq__(self, other: object):
    if isinstance(other, type(self)):
        return self.n_qubits == other.n_qubits and list(self.operations) == list(
            other.operations
        )
    return NotImplemented
''')
F(C, "Circuit.collect_custom_gate_definitions", '''
def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
    definitions_by_name: Dict[str, _gates.CustomGateDefinition] = {}
    for operation in self.operations:
        gate = _innermost_gate(operation.gate)
        if not _gate_is_custom(gate):
            continue
        definition = gate.matrix_factory.gate_definition
        name = definition.gate_name
        known = definitions_by_name.get(name)
        if known is None:
            definitions_by_name[name] = definition
            continue
        if known != definition:
            raise ValueError(
                f"Different gate definitions with the same name exist: {name}."
            )
    return sorted(definitions_by_name.values(), key=lambda d: d.gate_name)
''')
F(C, "Circuit.collect_custom_gate_definitions", '''
def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
    unique_operation_dict = {}
    for gate_def in self._iter_custom_definitions():
        name = gate_def.gate_name
        if name in unique_operation_dict:
            if unique_operation_dict[name] != gate_def:
                raise ValueError(
                    "Different gate definitions with the same name exist: " + name
                )
        else:
            unique_operation_dict[name] = gate_def
    return sorted(
        unique_operation_dict.values(), key=operator.attrgetter("gate_name")
    )
''', post='''
def _iter_custom_definitions(self):
    for op in self.operations:
        gate = _innermost_gate(op.gate)
        if _gate_is_custom(gate):
            yield gate.matrix_factory.gate_definition
''', name="circuit:collect-generator")
F(C, "Circuit.to_unitary", '''
def to_unitary(self) -> Union[np.ndarray, sympy.Matrix]:
    for op in reversed(self.operations):
        if not isinstance(op, _gates.GateOperation):
            raise ValueError(
                f"Operation {op} is not a gate operation and so circuit cannot"
                "be converted to a unitary matrix."
            )
    lifted_matrices = [
        op.lifted_matrix(self.n_qubits) for op in reversed(self.operations)
    ]
    if len(lifted_matrices) == 0:
        return np.eye(2**self.n_qubits, dtype=complex)
    return reduce(operator.matmul, lifted_matrices)
''', name="circuit:to-unitary-two-passes")
F(C, "Circuit.to_unitary", '''
def to_unitary(self) -> Union[np.ndarray, sympy.Matrix]:
    lifted_matrices = []
    for op in self.operations[::-1]:
        if not isinstance(op, _gates.GateOperation):
            raise ValueError(
                f"Operation {op} is not a gate operation and so circuit cannot"
                "be converted to a unitary matrix."
            )
        lifted_matrices.append(op.lifted_matrix(self.n_qubits))

    if lifted_matrices:
        unitary = lifted_matrices[0]
        for matrix in lifted_matrices[1:]:
            unitary = unitary @ matrix
        return unitary
    return np.eye(2**self.n_qubits, dtype=complex)
''', name="circuit:to-unitary-loop")
F(C, "Circuit.bind", '''
def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
    bound_operations = []
    for op in self.operations:
        bound_operations.append(op.bind(symbols_map))
    return type(self)(bound_operations, self.n_qubits)
''')
F(C, "Circuit.inverse", '''
def inverse(self) -> "Circuit":
    for op in self.operations:
        assert isinstance(op, _gates.GateOperation)
    inverted = []
    try:
        for op in reversed(self.operations):
            inverted.append(op.gate.dagger(*op.qubit_indices))
        return type(self)(operations=inverted, n_qubits=self.n_qubits)
    except AttributeError as e:
        raise AttributeError(
            "Inverse is not implemented for this circuit type,"
            " since there are operators in it without the `dagger` method."
        ) from e
''')
F(C, "Circuit.controlled", '''
def controlled(self, control_index: int) -> "Circuit":
    def shifted(index):
        return index if index < control_index else index + 1

    c_ops = [
        op.gate.controlled(1)(control_index, *map(shifted, op.qubit_indices))
        for op in self.operations
    ]
    total_qubits = max(self.n_qubits, control_index) + 1
    return Circuit(c_ops, n_qubits=total_qubits)
''')
F(C, "Circuit.controlled", '''
def controlled(self, control_index: int) -> "Circuit":
    return Circuit(
        [self._controlled_operation(op, control_index) for op in self.operations],
        n_qubits=1 + max(control_index, self.n_qubits),
    )
''', post='''
@staticmethod
def _controlled_operation(op, control_index):
    qubits = [control_index]
    for i in op.qubit_indices:
        if i < control_index:
            qubits.append(i)
        else:
            qubits.append(i + 1)
    return op.gate.controlled(1)(*qubits)
''', name="circuit:controlled-static")
F(C, "_append_operation", '''
@_append_to_circuit.register
def _append_operation(other: _gates.GateOperation, circuit: Circuit):
    new_operations = list(circuit.operations)
    new_operations.append(other)
    n_qubits = circuit.n_qubits
    for index in other.qubit_indices:
        n_qubits = max(n_qubits, index + 1)
    return type(circuit)(operations=new_operations, n_qubits=n_qubits)
''')
F(C, "_append_circuit", '''
@_append_to_circuit.register
def _append_circuit(other: Circuit, circuit: Circuit):
    cls = type(circuit)
    merged = circuit.operations + other.operations
    return cls(
        merged,
        circuit.n_qubits if circuit.n_qubits >= other.n_qubits else other.n_qubits,
    )
''')
F(C, "split_circuit", '''
def split_circuit(
    circuit: Circuit, predicate: Callable[[_operations.Operation], bool]
) -> Iterable[Tuple[bool, Circuit]]:
    for group in groupby(circuit.operations, key=predicate):
        yield group[0], Circuit(group[1], n_qubits=circuit.n_qubits)
''')

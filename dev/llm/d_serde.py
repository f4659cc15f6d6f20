P = "circuits/_itertools.py"
F(P, "_iterate_in_batches", '''
def _iterate_in_batches(items: Iterable[T], batch_size: int) -> Iterable[Tuple[T, ...]]:
    it = iter(items)
    while True:
        chunk = tuple(islice(it, batch_size))
        if not chunk:
            return
        yield chunk
''')
F(P, "split_into_batches", '''
def split_into_batches(
    circuits: Sequence[T],
    n_samples_per_circuit: Sequence[int],
    max_batch_size: int,
) -> Iterable[Tuple[Sequence[T], int]]:
    _check_batching_args(circuits, n_samples_per_circuit, max_batch_size)
    return _generate_batches(circuits, n_samples_per_circuit, max_batch_size)
''', pre='''
def _check_batching_args(circuits, n_samples_per_circuit, max_batch_size):
    n_circuits = len(circuits)
    n_sizes = len(n_samples_per_circuit)
    if n_circuits != n_sizes:
        raise ValueError(
            "Mismatched lengths of `circuits` and `n_samples_per_circuit: "
            f"({n_circuits} and {n_sizes} respectively)."
            "Both sequences need to have the same length"
        )

    if max_batch_size <= 0:
        raise ValueError(
            "Max circuits per batch has to be positive, got " f"{max_batch_size}"
        )


def _generate_batches(circuits, n_samples_per_circuit, max_batch_size):
    circuit_chunks = _iterate_in_batches(circuits, max_batch_size)
    samples_chunks = _iterate_in_batches(n_samples_per_circuit, max_batch_size)
    for circuits_chunk, samples_chunk in zip(circuit_chunks, samples_chunks):
        yield circuits_chunk, max(samples_chunk)
''')
F(P, "_expand_sample_size", '''
def _expand_sample_size(n_samples, max_sample_size):
    n_full, remainder = divmod(n_samples, max_sample_size)
    multiplicities = -(-n_samples // max_sample_size)
    if remainder == 0:
        return multiplicities * (max_sample_size,), multiplicities
    return (multiplicities - 1) * (max_sample_size,) + (remainder,), multiplicities
''')
F(P, "_expand_sample_size", '''
def _expand_sample_size(n_samples, max_sample_size):
    multiplicities = -(-n_samples // max_sample_size)
    remainder = n_samples % max_sample_size
    if remainder:
        new_n_samples = (multiplicities - 1) * (max_sample_size,) + (remainder,)
    else:
        new_n_samples = multiplicities * (max_sample_size,)
    return new_n_samples, multiplicities
''', name="exp2")
F(P, "expand_sample_sizes", '''
def expand_sample_sizes(
    circuits: Sequence[T], n_samples_per_circuit: Sequence[int], max_sample_size: int
) -> Tuple[Sequence[T], Sequence[int], Sequence[int]]:
    new_n_samples = []
    multiplicities = []
    for n_samples in n_samples_per_circuit:
        expanded, multi = _expand_sample_size(n_samples, max_sample_size)
        new_n_samples.extend(expanded)
        multiplicities.append(multi)

    new_circuits = []
    for circuit, multi in zip(circuits, multiplicities):
        new_circuits.extend([circuit] * multi)

    return new_circuits, new_n_samples, multiplicities
''')
F(P, "_combine_measurements", '''
def _combine_measurements(
    first: Dict[str, int], second: Dict[str, int]
) -> Dict[str, int]:
    combined = dict(first)
    for bitstring, count in second.items():
        combined[bitstring] = combined.get(bitstring, 0) + count
    return combined
''')
F(P, "combine_measurement_counts", '''
def combine_measurement_counts(
    all_measurements: Sequence[Dict[str, int]], multiplicities: Sequence[int]
) -> List[Dict[str, int]]:
    sum_multiplicities = sum(multiplicities)
    if sum_multiplicities != len(all_measurements):
        raise ValueError(
            "Mismatch between multiplicities and number of measurements to combine. "
            f"Got {len(all_measurements)} Measurements objects to combine "
            f"but multiplicities sum to {sum_multiplicities}"
        )
    measurements_it = iter(all_measurements)
    combined = []
    for multiplicity in multiplicities:
        group = islice(measurements_it, multiplicity)
        combined.append(reduce(_combine_measurements, group))
    return combined
''')
F(P, "combine_bitstrings", '''
def combine_bitstrings(
    all_bitstrings: Sequence[List[str]], multiplicities: Sequence[int]
) -> List[List[str]]:
    sum_multiplicities = sum(multiplicities)
    if len(all_bitstrings) != sum_multiplicities:
        raise ValueError(
            "Mismatch between multiplicities and number of measurements to combine. "
            f"Got {len(all_bitstrings)} bitstrings lists objects to combine "
            f"but multiplicities sum to {sum_multiplicities}"
        )
    bitstrings_it = iter(all_bitstrings)
    result = []
    for multiplicity in multiplicities:
        group = []
        for bitstrings in islice(bitstrings_it, multiplicity):
            group.extend(bitstrings)
        result.append(group)
    return result
''')
P = "circuits/_serde.py"
F(P, "deserialize_expr", '''
def deserialize_expr(expr_str, symbol_names):
    names = sorted(symbol_names, key=len, reverse=True)
    if not names:
        return sympy.sympify(expr_str)

    placeholders = {}
    symbols = {}
    for i, name in enumerate(names):
        placeholders[name] = f"_symbol_{i}"
    for name in names:
        symbols[placeholders[name]] = sympy.Symbol(name)

    def _to_placeholder(match):
        return placeholders[match.group(0)]

    escaped = "|".join(re.escape(name) for name in names)
    pattern = rf"(?<!\\w)(?:{escaped})(?![\\w(])"
    return sympy.sympify(re.sub(pattern, _to_placeholder, expr_str), locals=symbols)
''')
F(P, "_matrix_to_json", '''
def _matrix_to_json(matrix: sympy.Matrix):
    rows = []
    n_rows = matrix.shape[0]
    for row_i in range(n_rows):
        rows.append([serialize_expr(element) for element in matrix.row(row_i)])
    return rows
''')
F(P, "_matrix_from_json", '''
def _matrix_from_json(
    json_rows: List[List[str]], symbols_names: Iterable[str]
) -> sympy.Matrix:
    rows = [
        _map_eager(lambda element: deserialize_expr(element, symbols_names), json_row)
        for json_row in json_rows
    ]
    return sympy.Matrix(rows)
''')
F(P, "_map_eager", '''
def _map_eager(fn, iterable: Iterable):
    return [fn(item) for item in iterable]
''')
F(P, "_circuit_to_dict", '''
@to_dict.register
def _circuit_to_dict(circuit: _circuit.Circuit):
    custom_gate_definitions = circuit.collect_custom_gate_definitions()
    dict_ = {"n_qubits": circuit.n_qubits}
    if circuit.operations:
        dict_["operations"] = _map_eager(to_dict, circuit.operations)
    if custom_gate_definitions:
        dict_["custom_gate_definitions"] = _map_eager(to_dict, custom_gate_definitions)
    return dict_
''')
F(P, "_basic_gate_to_dict", '''
@to_dict.register
def _basic_gate_to_dict(gate: _gates.MatrixFactoryGate):
    result = {"name": gate.name}
    if gate.params:
        result["params"] = [serialize_expr(param) for param in gate.params]
    free_symbols = gate.free_symbols
    if free_symbols:
        result["free_symbols"] = sorted(str(symbol) for symbol in free_symbols)
    return result
''')
F(P, "_power_gate_to_dict", '''
@to_dict.register
def _power_gate_to_dict(gate: _gates.Power):
    return {**_wrapper_to_dict(gate), "exponent": gate.exponent}
''', pre='''
def _wrapper_to_dict(gate):
    return {"name": gate.name, "wrapped_gate": to_dict(gate.wrapped_gate)}
''')
F(P, "_controlled_gate_to_dict", '''
@to_dict.register
def _controlled_gate_to_dict(gate: _gates.ControlledGate):
    result = dict(name=gate.name, wrapped_gate=to_dict(gate.wrapped_gate))
    result["num_control_qubits"] = gate.num_control_qubits
    return result
''')
F(P, "circuit_from_dict", '''
def circuit_from_dict(dict_):
    defs = _map_eager(
        custom_gate_def_from_dict, dict_.get("custom_gate_definitions", [])
    )
    operations = []
    for op_dict in dict_.get("operations", []):
        operations.append(_gate_operation_from_dict(op_dict, defs))
    return _circuit.Circuit(operations=operations, n_qubits=dict_["n_qubits"])
''')
F(P, "_gate_operation_from_dict", '''
def _gate_operation_from_dict(dict_, custom_gate_defs):
    gate = _gate_from_dict(dict_["gate"], custom_gate_defs)
    qubit_indices = tuple(dict_["qubit_indices"])
    return _gates.GateOperation(gate, qubit_indices)
''')
F(P, "_gate_from_dict", '''
def _gate_from_dict(dict_, custom_gate_defs):
    if _is_custom_gate(dict_, custom_gate_defs):
        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)

    try:
        return _builtin_gate_from_dict(dict_)
    except KeyError:
        pass

    try:
        return _special_gate_from_dict(dict_, custom_gate_defs)
    except KeyError:
        return _custom_gate_instance_from_dict(dict_, custom_gate_defs)
''', pre='''
def _is_custom_gate(dict_, custom_gate_defs):
    if "wrapped_gate" in dict_:
        return False
    return any(gate_def.gate_name == dict_["name"] for gate_def in custom_gate_defs)
''')
F(P, "_builtin_gate_from_dict", '''
def _builtin_gate_from_dict(dict_) -> _builtin_gates.GateRef:
    gate_ref = builtin_gate_by_name(dict_["name"])
    if gate_ref is None:
        raise KeyError()

    if not _gates.gate_is_parametric(gate_ref, dict_.get("params")):
        return gate_ref

    return gate_ref(*_deserialize_params(dict_))
''', pre='''
def _deserialize_params(dict_):
    symbol_names = dict_.get("free_symbols", [])
    return [deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
''')
F(P, "_special_gate_from_dict", '''
def _special_gate_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
    name = dict_["name"]

    def wrapped_gate():
        return _gate_from_dict(dict_["wrapped_gate"], custom_gate_defs)

    if name == _gates.CONTROLLED_GATE_NAME:
        return _gates.ControlledGate(wrapped_gate(), dict_["num_control_qubits"])
    if name.endswith(_gates.DAGGER_GATE_NAME):
        return _gates.Dagger(wrapped_gate())
    if name == _gates.EXPONENTIAL_GATE_NAME:
        return _gates.Exponential(wrapped_gate())
    if _gates.POWER_GATE_SYMBOL in name:
        return _gates.Power(wrapped_gate(), dict_["exponent"])
    raise KeyError()
''')
F(P, "custom_gate_def_from_dict", '''
def custom_gate_def_from_dict(dict_) -> _gates.CustomGateDefinition:
    params_ordering = dict_.get("params_ordering", [])
    return _gates.CustomGateDefinition(
        gate_name=dict_["gate_name"],
        matrix=_matrix_from_json(dict_["matrix"], params_ordering),
        params_ordering=tuple(map(sympy.Symbol, params_ordering)),
    )
''')
F(P, "_custom_gate_instance_from_dict", '''
def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
    for gate_def in custom_gate_defs:
        if gate_def.gate_name == dict_["name"]:
            break
    else:
        raise ValueError(
            f"Custom gate definition for {dict_['name']} missing from serialized dict"
        )
    symbol_names = dict_.get("free_symbols", [])
    params = [deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
    return gate_def(*params)
''')
F(P, "_custom_gate_instance_from_dict", '''
def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
    name = dict_["name"]
    matching = [gate_def for gate_def in custom_gate_defs if gate_def.gate_name == name]
    if not matching:
        raise ValueError(
            f"Custom gate definition for {name} missing from serialized dict"
        )
    gate_def = matching[0]
    symbol_names = dict_.get("free_symbols", [])
    return gate_def(
        *(deserialize_expr(param, symbol_names) for param in dict_.get("params", []))
    )
''', name="cust2")
F(P, "save_circuit", '''
def save_circuit(circuit: _circuit.Circuit, dump_target: DumpTarget):
    _dump(to_dict(circuit), dump_target)
''', pre='''
def _dump(dict_, dump_target):
    with ensure_open(dump_target, "w") as f:
        json.dump(dict_, f)
''')
F(P, "load_circuit", '''
def load_circuit(load_src: LoadSource):
    with ensure_open(load_src) as f:
        circuit_dict = json.load(f)
    return circuit_from_dict(circuit_dict)
''')
F(P, "circuitset_from_dict", '''
def circuitset_from_dict(dict_) -> List[_circuit.Circuit]:
    circuits = []
    for circuit_dict in dict_["circuits"]:
        circuits.append(circuit_from_dict(circuit_dict))
    return circuits
''')

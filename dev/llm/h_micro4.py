IT = "circuits/_itertools.py"
LA = "circuits/layouts.py"
OPS = "circuits/_operations.py"
BG = "circuits/_builtin_gates.py"
MX = "circuits/_matrices.py"
GN = "circuits/_generators.py"
SO = "circuits/symbolic/_sorting.py"
SE = "circuits/symbolic/sympy_expressions.py"
TR = "circuits/symbolic/translations.py"
EX = "circuits/symbolic/expressions.py"
ES = "estimation/_estimation.py"
EVO = "evolution.py"
DC = "decompositions/_decomposition.py"
OD = "decompositions/_orquestra_decompositions.py"
CR = "api/circuit_runner.py"
WS = "api/wavefunction_simulator.py"
SS = "runners/symbolic_simulator.py"
TK = "runners/trackers.py"
S(IT, "    it = iter(items)\n    while (chunk := tuple(islice(it, batch_size))):\n        yield chunk", "    it = iter(items)\n    chunk = tuple(islice(it, batch_size))\n    while chunk:\n        yield chunk\n        chunk = tuple(islice(it, batch_size))")
S(IT, "    it = iter(items)\n    while (chunk := tuple(islice(it, batch_size))):\n        yield chunk", "    iterator = iter(items)\n    while True:\n        batch = tuple(islice(iterator, batch_size))\n        if not batch:\n            return\n        yield batch")
S(IT, "    return ((circuits_chunk, max(samples_chunk)) for circuits_chunk, samples_chunk in zip(_iterate_in_batches(circuits, max_batch_size), _iterate_in_batches(n_samples_per_circuit, max_batch_size)))",
  "    circuit_batches = _iterate_in_batches(circuits, max_batch_size)\n    sample_batches = _iterate_in_batches(n_samples_per_circuit, max_batch_size)\n    return ((batch, max(samples)) for batch, samples in zip(circuit_batches, sample_batches))")
S(IT, "    if max_batch_size <= 0:\n", "    if not max_batch_size > 0:\n")
S(IT, "    if max_batch_size <= 0:\n", "    if max_batch_size < 1:\n")
S(IT, "    multiplicities = -(-n_samples // max_sample_size)\n", "    multiplicities = (n_samples + max_sample_size - 1) // max_sample_size\n")
S(IT, "    multiplicities = -(-n_samples // max_sample_size)\n    new_n_samples = multiplicities * (max_sample_size,) if n_samples % max_sample_size == 0 else (multiplicities - 1) * (max_sample_size,) + (n_samples % max_sample_size,)\n    return (new_n_samples, multiplicities)",
  "    full, remainder = divmod(n_samples, max_sample_size)\n    if remainder == 0:\n        return full * (max_sample_size,), full\n    return full * (max_sample_size,) + (remainder,), full + 1")
S(IT, "    new_n_samples = multiplicities * (max_sample_size,) if n_samples % max_sample_size == 0 else (multiplicities - 1) * (max_sample_size,) + (n_samples % max_sample_size,)\n", "    remainder = n_samples % max_sample_size\n    if remainder:\n        new_n_samples = (max_sample_size,) * (multiplicities - 1) + (remainder,)\n    else:\n        new_n_samples = (max_sample_size,) * multiplicities\n")
S(IT, "    new_n_samples = [n for n_samples, _ in n_samples_and_multiplicities for n in n_samples]\n    multiplicities = [multi for _, multi in n_samples_and_multiplicities]\n", "    new_n_samples = []\n    multiplicities = []\n    for n_samples, multi in n_samples_and_multiplicities:\n        new_n_samples.extend(n_samples)\n        multiplicities.append(multi)\n")
S(IT, "    new_circuits = [circuit for circuit, multi in zip(circuits, multiplicities) for _ in range(multi)]\n", "    new_circuits = []\n    for circuit, multi in zip(circuits, multiplicities):\n        new_circuits += [circuit] * multi\n")
S(IT, "    new_n_samples = [n for n_samples, _ in n_samples_and_multiplicities for n in n_samples]\n", "    from itertools import chain\n    new_n_samples = list(chain.from_iterable(n_samples for n_samples, _ in n_samples_and_multiplicities))\n")
S(IT, "    result = Counter(first)\n    for bitstring, count in second.items():\n        result[bitstring] += count\n    return dict(result)", "    result = dict(first)\n    for bitstring, count in second.items():\n        result[bitstring] = result.get(bitstring, 0) + count\n    return result")
S(IT, "    result = Counter(first)\n    for bitstring, count in second.items():\n        result[bitstring] += count\n    return dict(result)", "    result = Counter(first)\n    result.update(second)\n    return dict(result)")
S(IT, "    if len(all_measurements) != (sum_multiplicities := sum(multiplicities)):\n", "    sum_multiplicities = sum(multiplicities)\n    if len(all_measurements) != sum_multiplicities:\n")
S(IT, "    return [reduce(_combine_measurements, islice(measurements_it, multiplicity)) for multiplicity in multiplicities]", "    combined = []\n    for multiplicity in multiplicities:\n        group = islice(measurements_it, multiplicity)\n        combined.append(reduce(_combine_measurements, group))\n    return combined")
S(IT, "    return [sum(islice(bitstrings_it, multiplicity), start=[]) for multiplicity in multiplicities]", "    return [sum(islice(bitstrings_it, multiplicity), []) for multiplicity in multiplicities]")
S(IT, "    bitstrings_it = iter(all_bitstrings)\n    return [sum(islice(bitstrings_it, multiplicity), start=[]) for multiplicity in multiplicities]", "    bitstrings_it = iter(all_bitstrings)\n    return [[bitstring for bitstrings in islice(bitstrings_it, multiplicity) for bitstring in bitstrings] for multiplicity in multiplicities]")
# layouts
S(LA, "        layers = [[tuple(x) for x in layer] for layer in data['layers']]\n        return cls(layers)", "        return cls([list(map(tuple, layer)) for layer in data['layers']])")
S(LA, "        layers = [[tuple(x) for x in layer] for layer in data['layers']]\n        return cls(layers)", "        layers = []\n        for layer in data['layers']:\n            layers.append([tuple(pair) for pair in layer])\n        return cls(layers)")
S(LA, "        tuples = [tuple(x) for x in data['connectivity']]\n        return cls(tuples)", "        return cls([tuple(pair) for pair in data['connectivity']])")
S(LA, "    ordering = {'ordering': ordering}\n    with open(filename, 'w') as f:\n        f.write(json.dumps(ordering))", "    data = {'ordering': ordering}\n    with open(filename, 'w') as f:\n        json.dump(data, f)")
S(LA, "    circuit_layers_dict = circuit_layers.to_dict()\n    with open(filename, 'w') as f:\n        f.write(json.dumps(circuit_layers_dict))", "    serialized = json.dumps(circuit_layers.to_dict())\n    with open(filename, 'w') as f:\n        f.write(serialized)")
S(LA, "    for index in range(0, n_qubits - 1, 2):\n        even_layer.append((index, index + 1))\n    for index in range(1, n_qubits - 1, 2):\n        odd_layer.append((index, index + 1))\n", "    for index in range(n_qubits - 1):\n        if index % 2 == 0:\n            even_layer.append((index, index + 1))\n        else:\n            odd_layer.append((index, index + 1))\n")
S(LA, "    even_layer = []\n    odd_layer = []\n    for index in range(0, n_qubits - 1, 2):\n        even_layer.append((index, index + 1))\n    for index in range(1, n_qubits - 1, 2):\n        odd_layer.append((index, index + 1))\n    connectivity = []\n    connectivity.extend(even_layer)\n    connectivity.extend(odd_layer)\n", "    even_layer = [(index, index + 1) for index in range(0, n_qubits - 1, 2)]\n    odd_layer = [(index, index + 1) for index in range(1, n_qubits - 1, 2)]\n    connectivity = even_layer + odd_layer\n")
# operations
S(OPS, "    symbols = set((symbol for param in parameters if isinstance(param, sympy.Expr) for symbol in param.free_symbols))\n    return sorted(symbols, key=str)", "    symbols = set()\n    for param in parameters:\n        if isinstance(param, sympy.Expr):\n            symbols.update(param.free_symbols)\n    return sorted(symbols, key=str)")
S(OPS, "    symbols = set((symbol for param in parameters if isinstance(param, sympy.Expr) for symbol in param.free_symbols))\n    return sorted(symbols, key=str)", "    symbols = {symbol for param in parameters if isinstance(param, sympy.Expr) for symbol in param.free_symbols}\n    return sorted(symbols, key=lambda symbol: str(symbol))")
S(OPS, "    symbols = set((symbol for param in parameters if isinstance(param, sympy.Expr) for symbol in param.free_symbols))\n", "    expressions = [param for param in parameters if isinstance(param, sympy.Expr)]\n    symbols = set().union(*(expression.free_symbols for expression in expressions))\n")
S(OPS, "    return symbols_map.get(parameter, parameter)", "    return symbols_map[parameter] if parameter in symbols_map else parameter")
S(OPS, "    return symbols_map.get(parameter, parameter)", "    if parameter in symbols_map:\n        return symbols_map[parameter]\n    return parameter")
S(OPS, "    return parameter.subs(symbols_map, simultaneous=True)", "    return parameter.subs(symbols_map.items(), simultaneous=True)", kind="drop")
# builtin
S(BG, "    def _factory(*gate_parameters: _gates.Parameter):\n        return _gates.MatrixFactoryGate(name, matrix_factory, gate_parameters, num_qubits, is_hermitian)\n    return _factory", "    return lambda *gate_parameters: _gates.MatrixFactoryGate(name, matrix_factory, gate_parameters, num_qubits, is_hermitian)")
S(BG, "return _gates.MatrixFactoryGate(name, matrix_factory, gate_parameters, num_qubits, is_hermitian)", "return _gates.MatrixFactoryGate(name=name, matrix_factory=matrix_factory, params=gate_parameters, num_qubits=num_qubits, is_hermitian=is_hermitian)")
S(BG, "I = _gates.MatrixFactoryGate('I', _matrices.i_matrix, (), 1, is_hermitian=True)", "I = _gates.MatrixFactoryGate('I', _matrices.i_matrix, (), 1, True)")
S(BG, "S = _gates.MatrixFactoryGate('S', _matrices.s_matrix, (), 1)", "S = _gates.MatrixFactoryGate('S', _matrices.s_matrix, (), 1, is_hermitian=False)")
# matrices
S(MX, "    return sympy.Matrix([[1 / np.sqrt(2), 1 / np.sqrt(2)], [1 / np.sqrt(2), -1 / np.sqrt(2)]])", "    a = 1 / np.sqrt(2)\n    return sympy.Matrix([[a, a], [a, -a]])")
S(MX, "    return sympy.Matrix([[1, 0], [0, 1]])", "    return sympy.eye(2)")
S(MX, "    return sympy.Matrix([[1, 0], [0, -1]])", "    return sympy.diag(1, -1)")
S(MX, "sympy.exp(1j * np.pi / 4)", "sympy.exp(1j * (np.pi / 4))")
S(MX, "    return sympy.Matrix([[(1 + 1j) / 2, (1 - 1j) / 2], [(1 - 1j) / 2, (1 + 1j) / 2]])", "    plus = (1 + 1j) / 2\n    minus = (1 - 1j) / 2\n    return sympy.Matrix([[plus, minus], [minus, plus]])")
S(MX, "    return sympy.Matrix([[sympy.cos(angle / 2), -1j * sympy.sin(angle / 2)], [-1j * sympy.sin(angle / 2), sympy.cos(angle / 2)]])", "    half = angle / 2\n    c = sympy.cos(half)\n    s = sympy.sin(half)\n    return sympy.Matrix([[c, -1j * s], [-1j * s, c]])")
S(MX, "-1 * sympy.sin(angle / 2)], [sympy.sin", "-sympy.sin(angle / 2)], [sympy.sin")
S(MX, "sympy.exp(-1 * sympy.I * angle / 2), 0]", "sympy.exp(-sympy.I * angle / 2), 0]")
S(MX, "[[1, 0], [0, sympy.exp(1j * angle)]]", "((1, 0), (0, sympy.exp(1j * angle)))")
# generators
S(GN, "    circuit = Circuit()\n    return apply_gate_to_qubits(circuit, range(number_of_qubits), gate_factory, parameters)", "    return apply_gate_to_qubits(circuit=Circuit(), qubit_indices=range(number_of_qubits), gate_factory=gate_factory, parameters=parameters)")
S(GN, "    if len(unique_qubit_idx) != len(qubit_indices):\n", "    if len(qubit_indices) > len(unique_qubit_idx):\n")
S(GN, "        for qubit, parameter in zip(unique_qubit_idx, parameters):\n            circuit += gate_factory(*parameter)(qubit)\n", "        for qubit, parameter in zip(unique_qubit_idx, parameters):\n            gate = gate_factory(*parameter)\n            circuit = circuit + gate(qubit)\n")
S(GN, "    extended_circuit = circuit\n    for ancilla_qubit_i in range(n_ancilla_qubits):\n        qubit_index = circuit.n_qubits + ancilla_qubit_i\n        extended_circuit += I(qubit_index)\n    return extended_circuit", "    n_qubits = circuit.n_qubits\n    extended_circuit = circuit\n    for qubit_index in range(n_qubits, n_qubits + n_ancilla_qubits):\n        extended_circuit += I(qubit_index)\n    return extended_circuit")
S(GN, "    extended_circuit = circuit\n    for ancilla_qubit_i in range(n_ancilla_qubits):\n        qubit_index = circuit.n_qubits + ancilla_qubit_i\n        extended_circuit += I(qubit_index)\n    return extended_circuit", "    extended_circuit = circuit\n    for ancilla_qubit_i in range(n_ancilla_qubits):\n        extended_circuit = extended_circuit + I(ancilla_qubit_i + circuit.n_qubits)\n    return extended_circuit")
S(GN, "    if parameters is not None:\n        assert len(parameters) == len(unique_qubit_idx)\n        gate_factory = cast(GatePrototype, gate_factory)\n        for qubit, parameter in zip(unique_qubit_idx, parameters):\n            circuit += gate_factory(*parameter)(qubit)\n    else:\n        gate_factory = cast(Gate, gate_factory)\n        for qubit in unique_qubit_idx:\n            circuit += gate_factory(qubit)\n    return circuit",
  "    if parameters is None:\n        for qubit in unique_qubit_idx:\n            circuit += cast(Gate, gate_factory)(qubit)\n        return circuit\n    assert len(parameters) == len(unique_qubit_idx)\n    for qubit, parameter in zip(unique_qubit_idx, parameters):\n        circuit += cast(GatePrototype, gate_factory)(*parameter)(qubit)\n    return circuit")
# symbolic
S(SO, "    return int(text) if text.isdigit() else text", "    if text.isdigit():\n        return int(text)\n    return text")
S(SO, "    return [_convert_string_to_int_if_possible(group) for group in re.split('(\\\\d+)', symbol.name)]", "    return list(map(_convert_string_to_int_if_possible, re.split('(\\\\d+)', symbol.name)))")
S(SO, "re.split('(\\\\d+)', symbol.name)", "re.split('([0-9]+)', symbol.name)", kind="drop")
S(SO, "    return list(reversed(natural_key(symbol)))", "    return natural_key(symbol)[::-1]")
S(SO, "    symbol_weights = {name: i for i, name in enumerate(names_order)}\n", "    symbol_weights = dict(zip(names_order, range(len(names_order))))\n")
S(SO, "        name, index = symbol.name.split('_')\n        return (int(index), symbol_weights[name])", "        parts = symbol.name.split('_')\n        name, index = parts\n        return int(index), symbol_weights[name]")
S(SE, "    args = sympy_mul.args\n    return len(args) == 2 and isinstance(args[1], sympy.Pow) and (args[1].args[1] == -1)", "    args = sympy_mul.args\n    if len(args) != 2:\n        return False\n    second = args[1]\n    return isinstance(second, sympy.Pow) and second.args[1] == -1")
S(SE, "    return expr * -1", "    return -1 * expr")
S(SE, "    if is_addition_of_negation(add):\n        return FunctionCall('sub', (expression_from_sympy(add.args[0]), expression_from_sympy(_negate_sympy_expr(add.args[1]))))\n    return FunctionCall('add', expression_from_sympy(add.args))", "    if not is_addition_of_negation(add):\n        return FunctionCall('add', expression_from_sympy(add.args))\n    first, second = add.args\n    return FunctionCall('sub', (expression_from_sympy(first), expression_from_sympy(_negate_sympy_expr(second))))")
S(SE, "    if is_multiplication_by_reciprocal(mul):\n        return FunctionCall('div', (expression_from_sympy(mul.args[0]), expression_from_sympy(mul.args[1].args[0])))\n    else:\n        return FunctionCall('mul', expression_from_sympy(mul.args))", "    if is_multiplication_by_reciprocal(mul):\n        numerator, reciprocal = mul.args\n        denominator = reciprocal.args[0]\n        return FunctionCall(name='div', args=(expression_from_sympy(numerator), expression_from_sympy(denominator)))\n    return FunctionCall(name='mul', args=expression_from_sympy(mul.args))")
S(SE, "    if power.args[1] == -1:\n        return FunctionCall('div', (1, expression_from_sympy(power.args[0])))\n    elif power.args[1] == 0.5:\n        return FunctionCall('sqrt', (expression_from_sympy(power.args[0]),))\n    else:\n        return FunctionCall('pow', expression_from_sympy(power.args))", "    base, exponent = power.args\n    if exponent == -1:\n        return FunctionCall('div', (1, expression_from_sympy(base)))\n    if exponent == 0.5:\n        return FunctionCall('sqrt', (expression_from_sympy(base),))\n    return FunctionCall('pow', expression_from_sympy(power.args))")
S(SE, "    return tuple((expression_from_sympy(arg) for arg in args))", "    return tuple(map(expression_from_sympy, args))")
S(SE, "'add': reduction(operator.add)", "'add': lambda *args: reduction(operator.add)(*args)")
S(SE, "'add': reduction(operator.add), 'mul': reduction(operator.mul)", "'mul': reduction(operator.mul), 'add': reduction(operator.add)")
S(SE, "'div': operator.truediv,", "'div': lambda a, b: a / b,")
S(TR, "    if function_call.name not in dialect.known_functions:\n        raise ValueError(f'Function {function_call.name} is unknown in this dialect.')\n    return dialect.known_functions[function_call.name](*translate_tuple(function_call.args, dialect))", "    name, args = function_call.name, function_call.args\n    if name not in dialect.known_functions:\n        raise ValueError(f'Function {name} is unknown in this dialect.')\n    function = dialect.known_functions[name]\n    return function(*translate_tuple(args, dialect))")
S(TR, "    if function_call.name not in dialect.known_functions:\n        raise ValueError(f'Function {function_call.name} is unknown in this dialect.')\n    return dialect.known_functions[function_call.name](*translate_tuple(function_call.args, dialect))", "    try:\n        function = dialect.known_functions[function_call.name]\n    except KeyError:\n        raise ValueError(f'Function {function_call.name} is unknown in this dialect.')\n    return function(*translate_tuple(function_call.args, dialect))")
S(TR, "    return tuple((translate_expression(element, dialect) for element in expression_tuple))", "    return tuple([translate_expression(element, dialect) for element in expression_tuple])")
S(EX, "    def _reduction(*args):\n        return reduce(operator, args)\n    return _reduction", "    return lambda *args: reduce(operator, args)")
S(EX, "    def _reduction(*args):\n        return reduce(operator, args)\n    return _reduction", "    from functools import partial\n    def _reduction(*operands):\n        first, *rest = operands\n        return reduce(operator, rest, first)\n    return _reduction", kind="drop")
# estimation
S(ES, "    return [EstimationTask(operator=estimation_task.operator, circuit=estimation_task.circuit.bind(symbols_map), number_of_shots=estimation_task.number_of_shots) for estimation_task, symbols_map in zip(estimation_tasks, symbols_maps)]", "    bound_tasks = []\n    for task, symbols_map in zip(estimation_tasks, symbols_maps):\n        bound_circuit = task.circuit.bind(symbols_map)\n        bound_tasks.append(EstimationTask(task.operator, bound_circuit, task.number_of_shots))\n    return bound_tasks")
S(ES, "        if task.operator.is_constant or task.number_of_shots == 0:\n            indices_not_to_measure.append(i)\n            estimation_tasks_not_to_measure.append(task)\n        else:\n            indices_to_measure.append(i)\n            estimation_tasks_to_measure.append(task)\n", "        needs_measurement = not task.operator.is_constant and task.number_of_shots != 0\n        if needs_measurement:\n            indices_to_measure.append(i)\n            estimation_tasks_to_measure.append(task)\n        else:\n            indices_not_to_measure.append(i)\n            estimation_tasks_not_to_measure.append(task)\n")
S(ES, "        if task.operator.is_constant or task.number_of_shots == 0:\n            indices_not_to_measure.append(i)\n            estimation_tasks_not_to_measure.append(task)\n        else:\n            indices_to_measure.append(i)\n            estimation_tasks_to_measure.append(task)\n", "        if task.operator.is_constant or task.number_of_shots == 0:\n            indices_not_to_measure.append(i)\n            estimation_tasks_not_to_measure.append(task)\n            continue\n        indices_to_measure.append(i)\n        estimation_tasks_to_measure.append(task)\n")
S(ES, "            coefficient = sum((term.coefficient for term in task.operator.terms))\n", "            coefficient = sum([term.coefficient for term in task.operator.terms])\n")
S(ES, "            coefficient = sum((term.coefficient for term in task.operator.terms))\n", "            coefficient = 0\n            for term in task.operator.terms:\n                coefficient += term.coefficient\n")
S(ES, "        expectation_values.append(ExpectationValues(np.asarray([coefficient]), correlations=[np.asarray([[0.0]])], estimator_covariances=[np.asarray([[0.0]])]))\n", "        values = np.array([coefficient])\n        correlations = [np.zeros((1, 1))]\n        estimator_covariances = [np.zeros((1, 1))]\n        expectation_values.append(ExpectationValues(values, correlations, estimator_covariances))\n")
S(ES, "        elif task.number_of_shots is not None and task.number_of_shots > 0:\n            raise RuntimeError('An EstimationTask required shots but was classified as a non-measured task')\n        else:\n            coefficient = 0.0\n", "        else:\n            if task.number_of_shots is not None and task.number_of_shots > 0:\n                raise RuntimeError('An EstimationTask required shots but was classified as a non-measured task')\n            coefficient = 0.0\n")
S(ES, "    if not estimation_tasks_to_measure:\n        measured_expectation_values_list = []\n    else:\n", "    measured_expectation_values_list = []\n    if estimation_tasks_to_measure:\n")
S(ES, "        circuits, operators, shots_per_circuit = zip(*[(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure])\n", "        circuits = tuple(task.circuit for task in estimation_tasks_to_measure)\n        operators = tuple(task.operator for task in estimation_tasks_to_measure)\n        shots_per_circuit = tuple(task.number_of_shots for task in estimation_tasks_to_measure)\n")
S(ES, "        circuits, operators, shots_per_circuit = zip(*[(e.circuit, e.operator, e.number_of_shots) for e in estimation_tasks_to_measure])\n", "        circuits = [task.circuit for task in estimation_tasks_to_measure]\n        operators = [task.operator for task in estimation_tasks_to_measure]\n        shots_per_circuit = [task.number_of_shots for task in estimation_tasks_to_measure]\n")
S(ES, "[None for _ in range(len(estimation_tasks_not_to_measure) + len(estimation_tasks_to_measure))]", "[None] * len(estimation_tasks)")
S(ES, "    for ex_val, final_index in zip(non_measured_expectation_values_list, indices_not_to_measure):\n        full_expectation_values[final_index] = ex_val\n    for ex_val, final_index in zip(measured_expectation_values_list, indices_to_measure):\n        full_expectation_values[final_index] = ex_val\n", "    for final_index, ex_val in zip(indices_to_measure, measured_expectation_values_list):\n        full_expectation_values[final_index] = ex_val\n    for final_index, ex_val in zip(indices_not_to_measure, non_measured_expectation_values_list):\n        full_expectation_values[final_index] = ex_val\n")
S(ES, "    expectation_values_list = [runner.get_exact_expectation_values(estimation_task.circuit, estimation_task.operator) for estimation_task in estimation_tasks]\n    return [ExpectationValues(np.asarray([val])) for val in expectation_values_list]", "    return [ExpectationValues(np.asarray([runner.get_exact_expectation_values(task.circuit, task.operator)])) for task in estimation_tasks]")
S(ES, "[expectation_values_to_real(measurements.get_expectation_values(frame_operator)) for frame_operator, measurements in zip(operators, measurements_list)]", "[expectation_values_to_real(measurements.get_expectation_values(operator)) for measurements, operator in zip(measurements_list, operators)]")
# evolution
S(EVO, "    circuit = Circuit()\n    for _ in range(n_steps):\n        for term in hamiltonian.terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n    return circuit", "    circuit = Circuit()\n    time_step = time / n_steps\n    for _ in range(n_steps):\n        for term in hamiltonian.terms:\n            circuit = circuit + time_evolution_for_term(term, time_step)\n    return circuit", kind="drop")
S(EVO, "            circuit += time_evolution_for_term(term, time / n_steps)\n", "            term_circuit = time_evolution_for_term(term=term, time=time / n_steps)\n            circuit = circuit + term_circuit\n")
S(EVO, "    for _ in range(n_steps):\n        for term in hamiltonian.terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n", "    step = 0\n    while step < n_steps:\n        for term in hamiltonian.terms:\n            circuit += time_evolution_for_term(term, time / n_steps)\n        step += 1\n")
S(EVO, "        if i == len(term.operations) - 1:\n            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)\n        else:\n            cnot_gates += CNOT(qubit_id, qubit_indices[i + 1])\n", "        if i < len(qubit_indices) - 1:\n            cnot_gates += CNOT(qubit_id, qubit_indices[i + 1])\n        else:\n            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)\n")
S(EVO, "        if term[qubit_id] == 'X':\n            basis_change += H(qubit_id)\n        elif term[qubit_id] == 'Y':\n            basis_change += RX(np.pi / 2)(qubit_id)\n", "        pauli = term[qubit_id]\n        if pauli == 'X':\n            basis_change += H(qubit_id)\n        elif pauli == 'Y':\n            basis_change += RX(np.pi / 2)(qubit_id)\n")
S(EVO, "    all_z_rotation = cnot_gates + central_gate + cnot_gates.inverse()\n    circuit = basis_change + all_z_rotation + basis_change.inverse()\n    return circuit", "    return basis_change + cnot_gates + central_gate + cnot_gates.inverse() + basis_change.inverse()")
S(EVO, "    circuit = Circuit()\n    if abs(term.coefficient.imag) > 1e-09:\n        raise ValueError('Coefficients of terms must be real for Trotterization.')\n    if term.is_constant:\n        return circuit\n", "    if abs(term.coefficient.imag) > 1e-09:\n        raise ValueError('Coefficients of terms must be real for Trotterization.')\n    if term.is_constant:\n        return Circuit()\n")
S(EVO, "RZ(2 * time * term.coefficient.real)(qubit_id)", "RZ(2 * (time * term.coefficient.real))(qubit_id)")
S(EVO, "    for i, qubit_id in enumerate(qubit_indices):\n        if term[qubit_id] == 'X':\n            basis_change += H(qubit_id)\n        elif term[qubit_id] == 'Y':\n            basis_change += RX(np.pi / 2)(qubit_id)\n        if i == len(term.operations) - 1:\n            central_gate = RZ(2 * time * term.coefficient.real)(qubit_id)\n        else:\n            cnot_gates += CNOT(qubit_id, qubit_indices[i + 1])\n",
  "    for qubit_id in qubit_indices:\n        if term[qubit_id] == 'X':\n            basis_change += H(qubit_id)\n        elif term[qubit_id] == 'Y':\n            basis_change += RX(np.pi / 2)(qubit_id)\n    for control, target in zip(qubit_indices, qubit_indices[1:]):\n        cnot_gates += CNOT(control, target)\n    central_gate = RZ(2 * time * term.coefficient.real)(qubit_indices[-1])\n")
S(EVO, "            shift = factor * (np.pi / (4.0 * r))\n", "            shift = factor * np.pi / (4.0 * r)\n")
S(EVO, "                output += time_evolution_for_term(term_2, (time + shift) / n_steps if i == j else time / n_steps)\n", "                term_time = time + shift if i == j else time\n                output += time_evolution_for_term(term_2, term_time / n_steps)\n")
S(EVO, "            r = term_1.coefficient.real / n_steps\n            output_factors.append(r * factor)\n", "            r = term_1.coefficient.real / n_steps\n            output_factors.append(factor * r)\n")
S(EVO, "    if n_steps > 1:\n        output_circuits = []\n", "    if n_steps <= 1:\n        return single_trotter_derivatives, output_factors\n    else:\n        output_circuits = []\n", more=[("        return (output_circuits, final_factors)\n    else:\n        return (single_trotter_derivatives, output_factors)", "        return (output_circuits, final_factors)")])
S(EVO, "        for position in range(n_steps):\n            for factor, different_circuit in zip(output_factors, single_trotter_derivatives):\n                output_circuits.append(_generate_circuit_sequence(repeated_circuit, different_circuit, n_steps, position))\n                final_factors.append(factor)\n", "        for position in range(n_steps):\n            final_factors.extend(output_factors)\n            output_circuits.extend(_generate_circuit_sequence(repeated_circuit, different_circuit, n_steps, position) for different_circuit in single_trotter_derivatives)\n")
S(EVO, "    return Circuit(list(chain.from_iterable([(repeated_circuit if i != position else different_circuit).operations for i in range(length)])))", "    operations = []\n    for i in range(length):\n        circuit = different_circuit if i == position else repeated_circuit\n        operations.extend(circuit.operations)\n    return Circuit(operations)")
S(EVO, "    return Circuit(list(chain.from_iterable([(repeated_circuit if i != position else different_circuit).operations for i in range(length)])))", "    circuits = [repeated_circuit] * length\n    circuits[position] = different_circuit\n    return Circuit([operation for circuit in circuits for operation in circuit.operations])")
S(EVO, "    return Circuit(list(chain.from_iterable([(repeated_circuit if i != position else different_circuit).operations for i in range(length)])))", "    return Circuit([operation for i in range(length) for operation in (different_circuit if i == position else repeated_circuit).operations])")
# decompositions
S(DC, "    current_rule, *remaining_rules = decomposition_rules\n", "    current_rule = decomposition_rules[0]\n    remaining_rules = decomposition_rules[1:]\n")
S(DC, "    new_operations_to_decompose = current_rule.production(operation) if current_rule.predicate(operation) else [operation]\n", "    new_operations_to_decompose = [operation]\n    if current_rule.predicate(operation):\n        new_operations_to_decompose = current_rule.production(operation)\n")
S(DC, "    return [decomposed_op for op in new_operations_to_decompose for decomposed_op in decompose_operation(op, remaining_rules)]", "    result = []\n    for op in new_operations_to_decompose:\n        result.extend(decompose_operation(op, remaining_rules))\n    return result")
S(DC, "    return [decomposed_op for op in new_operations_to_decompose for decomposed_op in decompose_operation(op, remaining_rules)]", "    return decompose_operations(new_operations_to_decompose, remaining_rules)")
S(DC, "    return [decomposed_op for op in operations for decomposed_op in decompose_operation(op, decomposition_rules)]", "    from itertools import chain\n    return list(chain.from_iterable(decompose_operation(op, decomposition_rules) for op in operations))")
S(OD, "        return reversed(gate_operation_decomposition)", "        return gate_operation_decomposition[::-1]")
S(OD, "        gate_decomposition = [RZ(phi), RY(theta), RZ(lambda_)]\n", "        gate_decomposition = [RZ(lambda_), RY(theta), RZ(phi)]\n", more=[("        return reversed(gate_operation_decomposition)", "        return gate_operation_decomposition")])
S(OD, "        def preprocess_gate(gate):\n            return gate.controlled(operation.gate.num_control_qubits) if isinstance(operation.gate, ControlledGate) else gate\n        gate_operation_decomposition = [preprocess_gate(gate)(*operation.qubit_indices) for gate in gate_decomposition]\n", "        if isinstance(operation.gate, ControlledGate):\n            gate_decomposition = [gate.controlled(operation.gate.num_control_qubits) for gate in gate_decomposition]\n        gate_operation_decomposition = [gate(*operation.qubit_indices) for gate in gate_decomposition]\n")
S(OD, "        return isinstance(operation, GateOperation) and (operation.gate.name == 'U3' or (isinstance(operation.gate, ControlledGate) and operation.gate.wrapped_gate.name == 'U3'))", "        if not isinstance(operation, GateOperation):\n            return False\n        gate = operation.gate\n        if isinstance(gate, ControlledGate):\n            return gate.name == 'U3' or gate.wrapped_gate.name == 'U3'\n        return gate.name == 'U3'")
S(OD, "    return Circuit(decompose_operations(circuit.operations, decomposition_rules), n_qubits=circuit.n_qubits)", "    operations = decompose_operations(circuit.operations, decomposition_rules)\n    return Circuit(operations, circuit.n_qubits)")
# api
S(CR, "        result = self._run_and_measure(circuit, n_samples)\n        self._n_circuits_executed += 1\n        self._n_jobs_executed += 1\n        return result", "        measurements = self._run_and_measure(circuit, n_samples)\n        self._n_jobs_executed += 1\n        self._n_circuits_executed += 1\n        return measurements")
S(CR, "        samples_per_circuit = len(circuits_batch) * [n_samples] if isinstance(n_samples, int) else n_samples\n", "        if isinstance(n_samples, int):\n            samples_per_circuit = [n_samples for _ in circuits_batch]\n        else:\n            samples_per_circuit = n_samples\n")
S(CR, "        samples_per_circuit = len(circuits_batch) * [n_samples] if isinstance(n_samples, int) else n_samples\n", "        samples_per_circuit = [n_samples] * len(circuits_batch) if isinstance(n_samples, int) else n_samples\n")
S(CR, "        if any((n <= 0 for n in samples_per_circuit)):\n", "        if not all(n > 0 for n in samples_per_circuit):\n")
S(CR, "        if n_samples <= 0:\n            raise ValueError(f'Number of samples has to be positive, got {n_samples}')\n        result", "        if n_samples < 1:\n            raise ValueError(f'Number of samples has to be positive, got {n_samples}')\n        result")
S(CR, "        return [self.run_and_measure(circuit, n) for circuit, n in zip(batch, samples_per_circuit)]", "        results = []\n        for circuit, n_samples in zip(batch, samples_per_circuit):\n            results.append(self.run_and_measure(circuit, n_samples))\n        return results")
S(CR, "        return [self.run_and_measure(circuit, n) for circuit, n in zip(batch, samples_per_circuit)]", "        return list(map(self.run_and_measure, batch, samples_per_circuit))")
S(CR, "        measurements = self.run_and_measure(circuit, n_samples)\n        return measurements.get_distribution()", "        return self.run_and_measure(circuit, n_samples).get_distribution()")
S(WS, "        result = self._run_and_measure(circuit, n_samples)\n        return result", "        return self._run_and_measure(circuit, n_samples)")
S(WS, "        if circuit.free_symbols:\n", "        if len(circuit.free_symbols) > 0:\n")
S(WS, "        wavefunction = self.get_wavefunction(circuit)\n        return Measurements(sample_from_wavefunction(wavefunction, n_samples, self.seed))", "        samples = sample_from_wavefunction(self.get_wavefunction(circuit), n_samples, seed=self.seed)\n        return Measurements(bitstrings=samples)")
S(WS, "        if initial_state is None:\n            state = np.zeros(2 ** circuit.n_qubits)\n            state[0] = 1\n        else:\n            state = initial_state\n", "        if initial_state is not None:\n            state = initial_state\n        else:\n            state = np.zeros(2 ** circuit.n_qubits)\n            state[0] = 1\n")
S(WS, "            self._n_jobs_executed += 1\n            if is_supported:\n                self._n_circuits_executed += 1\n                state = self._get_wavefunction_from_native_circuit(subcircuit, state)\n            else:\n                for operation in subcircuit.operations:\n                    state = operation.apply(state)\n", "            self._n_jobs_executed += 1\n            if not is_supported:\n                for operation in subcircuit.operations:\n                    state = operation.apply(state)\n                continue\n            self._n_circuits_executed += 1\n            state = self._get_wavefunction_from_native_circuit(subcircuit, state)\n")
S(WS, "                for operation in subcircuit.operations:\n                    state = operation.apply(state)\n", "                from functools import reduce\n                state = reduce(lambda current, operation: operation.apply(current), subcircuit.operations, state)\n")
S(WS, "        wavefunction = self.get_wavefunction(circuit)\n        return get_expectation_value(operator, wavefunction).real", "        expectation_value = get_expectation_value(operator, self.get_wavefunction(circuit))\n        return expectation_value.real")
S(WS, "        if n_samples is None:\n            wavefunction = self.get_wavefunction(circuit)\n            return create_bitstring_distribution_from_probability_distribution(wavefunction.get_probabilities())\n        else:\n            measurements = self.run_and_measure(circuit, n_samples)\n            return measurements.get_distribution()", "        if n_samples is not None:\n            return self.run_and_measure(circuit, n_samples).get_distribution()\n        probabilities = self.get_wavefunction(circuit).get_probabilities()\n        return create_bitstring_distribution_from_probability_distribution(probabilities)")
S(WS, "        if n_samples is None:\n            wavefunction = self.get_wavefunction(circuit)\n            return create_bitstring_distribution_from_probability_distribution(wavefunction.get_probabilities())\n        else:\n            measurements = self.run_and_measure(circuit, n_samples)\n            return measurements.get_distribution()", "        if n_samples is not None:\n            return super().get_measurement_outcome_distribution(circuit, n_samples)\n        wavefunction = self.get_wavefunction(circuit)\n        return create_bitstring_distribution_from_probability_distribution(wavefunction.get_probabilities())")
S(SS, "        state = initial_state\n        for operation in circuit.operations:\n            state = operation.apply(state)\n        return state", "        for operation in circuit.operations:\n            initial_state = operation.apply(initial_state)\n        return initial_state")
# trackers
S(TK, "        measurement = self.inner_backend.run_and_measure(circuit, n_samples)\n        self.record_raw_measurement_data(circuit, measurement)\n        self.save_raw_data()\n        return measurement", "        result = self.inner_backend.run_and_measure(circuit, n_samples=n_samples)\n        self.record_raw_measurement_data(circuit=circuit, measurement=result)\n        self.save_raw_data()\n        return result")
S(TK, "        self._n_circuits_executed += len(circuits)\n        self._n_jobs_executed += 1\n", "        self._n_jobs_executed += 1\n        self._n_circuits_executed += len(circuits)\n")
S(TK, "            raw_data_dict['bitstrings'] = [list(map(int, list(bitstring))) for bitstring in measurement.bitstrings]\n", "            raw_data_dict['bitstrings'] = [[int(bit) for bit in bitstring] for bitstring in measurement.bitstrings]\n")
S(TK, "        raw_data_dict = {'data_type': 'measurement', 'device': self.type, 'circuit': to_dict(circuit), 'counts': measurement.get_counts(), 'number_of_gates': len(circuit.operations), 'number_of_shots': len(measurement.bitstrings)}\n", "        raw_data_dict = dict(data_type='measurement', device=self.type, circuit=to_dict(circuit), counts=measurement.get_counts(), number_of_gates=len(circuit.operations), number_of_shots=len(measurement.bitstrings))\n")
S(TK, "        with open(self.raw_data_file_name, 'w+') as f:\n            data = {'raw-data': self.raw_data}\n            f.write(json.dumps(data))\n        self.raw_data = []", "        data = {'raw-data': self.raw_data}\n        with open(self.raw_data_file_name, 'w+') as f:\n            f.write(json.dumps(data))\n        self.raw_data = []", kind="drop")
S(TK, "            data = {'raw-data': self.raw_data}\n            f.write(json.dumps(data))\n", "            json.dump({'raw-data': self.raw_data}, f)\n")
S(TK, "        self.type: str = inner_backend.__class__.__name__\n", "        self.type: str = type(inner_backend).__name__\n")
S(TK, "        self.raw_data.append({'data_type': 'measurement outcome distribution', 'device': self.type, 'circuit': to_dict(circuit), 'distribution': repr(distribution), 'number_of_gates': len(circuit.operations), 'number_of_shots': n_samples})\n", "        raw_data_dict = {'data_type': 'measurement outcome distribution', 'device': self.type, 'circuit': to_dict(circuit), 'distribution': repr(distribution), 'number_of_gates': len(circuit.operations), 'number_of_shots': n_samples}\n        self.raw_data.append(raw_data_dict)\n")
S(TK, "        self.raw_data.append(raw_data_dict)\n\n", "        self.raw_data += [raw_data_dict]\n\n")

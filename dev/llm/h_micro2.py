P = "operators/_pauli_operators.py"
U = "operators/_utils.py"
IO = "operators/_io.py"
OU = "operators/_openfermion_utils/operator_utils.py"
SP = "operators/_openfermion_utils/sparse_tools.py"
T = "utils.py"
S(P, "    if power % 2 == 1:\n        return pauli_rep * _efficient_exponentiation(pauli_rep, power - 1)\n    intermediate_result = _efficient_exponentiation(pauli_rep, power // 2)\n    return intermediate_result * intermediate_result",
  "    if power % 2 == 0:\n        half = _efficient_exponentiation(pauli_rep, power // 2)\n        return half * half\n    return pauli_rep * _efficient_exponentiation(pauli_rep, power - 1)")
S(P, "    if power == 0:\n        return type(pauli_rep).identity()\n", "    if not power:\n        return pauli_rep.__class__.identity()\n")
S(P, "return string.startswith('(') and string.endswith(')')", "return string[:1] == '(' and string[-1:] == ')'")
S(P, "value.real != 0 and value.imag != 0 and (not _is_in_brackets(complex_str))", "not _is_in_brackets(complex_str) and value.real and value.imag")
S(P, "value.real != 0 and value.imag != 0 and (not _is_in_brackets(complex_str))", "not (value.real == 0 or value.imag == 0 or _is_in_brackets(complex_str))")
S(P, "    if not match:\n        raise ValueError('Badly formatted string representation passed.')\n    return (int(match.group(2)), match.group(1).upper())",
  "    if match is None:\n        raise ValueError('Badly formatted string representation passed.')\n    op, index = match.groups()\n    return int(index), op.upper()")
S(P, "    match = re.match('([XYZI])([0-9]+)$', op_str, re.I)", "    match = re.match('([XYZI])([0-9]+)$', op_str, flags=re.IGNORECASE)")
S(P, "    operators_strs = [op_str for op_str in operators_strs if op_str != 'I']\n", "    operators_strs = list(filter(lambda op_str: op_str != 'I', operators_strs))\n")
S(P, "operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])", "operators_dict = dict(map(_parse_operator, operators_strs))")
S(P, "operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])", "operators_dict = {}\n    for op_str in operators_strs:\n        qubit, op = _parse_operator(op_str)\n        operators_dict[qubit] = op")
S(P, "    try:\n        coef = _parse_complex(parts[0])\n        operators_strs = parts[1:]\n    except ValueError:\n        coef = None\n        operators_strs = parts\n",
  "    try:\n        coef = _parse_complex(parts[0])\n    except ValueError:\n        coef = None\n        operators_strs = parts\n    else:\n        operators_strs = parts[1:]\n")
S(P, "            if _parsed_coefficient is not None and coefficient is not None:\n                raise ValueError('Coefficient can be provided either in an argument or string representation (but not both).')\n            if _parsed_coefficient is not None:\n                coefficient = _parsed_coefficient\n",
  "            if _parsed_coefficient is not None:\n                if coefficient is not None:\n                    raise ValueError('Coefficient can be provided either in an argument or string representation (but not both).')\n                coefficient = _parsed_coefficient\n")
S(P, "if not all([qubit_idx >= 0 for qubit_idx in operator]):", "if any(qubit_idx < 0 for qubit_idx in operator):")
S(P, "if not all([op in ALLOWED_OPERATORS for op in operator.values()]):", "if any(op not in ALLOWED_OPERATORS for op in operator.values()):")
S(P, "if not all([op in ALLOWED_OPERATORS for op in operator.values()]):", "if not set(operator.values()) <= set(ALLOWED_OPERATORS):")
S(P, "self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}", "self._ops: Dict[int, str] = dict((idx, op) for idx, op in operator.items() if op != 'I')")
S(P, "self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}", "self._ops: Dict[int, str] = {idx: operator[idx] for idx in operator if operator[idx] != 'I'}")
S(P, "self._ops: Dict[int, str] = {idx: op for idx, op in operator.items() if op != 'I'}", "ops: Dict[int, str] = {}\n        for idx, op in operator.items():\n            if op == 'I':\n                continue\n            ops[idx] = op\n        self._ops = ops")
S(P, "self.coefficient = 1.0 if coefficient is None else coefficient", "if coefficient is None:\n            coefficient = 1.0\n        self.coefficient = coefficient")
S(P, "            _, idx_list = zip(*terms)\n", "            idx_list = [term[1] for term in terms]\n")
S(P, "if len(set(idx_list)) != len(idx_list):", "if len(idx_list) > len(set(idx_list)):")
S(P, "        result_dict = {idx: op for op, idx in terms if op != 'I'}\n        return PauliTerm(result_dict, coefficient)", "        return PauliTerm({idx: op for op, idx in terms if op != 'I'}, coefficient)")
S(P, "        if new_coefficient is None:\n            new_coefficient = self.coefficient\n        return PauliTerm(operator=self._ops, coefficient=new_coefficient)", "        return PauliTerm(self._ops, self.coefficient if new_coefficient is None else new_coefficient)")
S(P, "        return PauliTerm(operator=self._ops, coefficient=new_coefficient)", "        return PauliTerm(operator=dict(self._ops), coefficient=new_coefficient)")
S(P, "return set(self._ops.keys())", "return set(self._ops)")
S(P, "return set(self._ops.keys())", "return {qubit for qubit in self._ops}")
S(P, "return set(self._ops.values()) == {'Z'} or self.is_constant", "return self.is_constant or all(op == 'Z' for op in self._ops.values())")
S(P, "return set(self._ops.values()) == {'Z'} or self.is_constant", "return set(self._ops.values()) <= {'Z'}")
S(P, "        return self._ops.get(i, 'I')", "            return 'I'\n        return self._ops[i]")
S(P, "        for i in self.qubits:\n            yield (self[i], i)", "        yield from ((self[i], i) for i in self.qubits)")
S(P, "            coefficient_imag = 0\n", "            coefficient_imag = 0.0\n")
S(P, "        if isinstance(self.coefficient, complex):\n            coefficient_real = self.coefficient.real\n            coefficient_imag = self.coefficient.imag\n        else:\n            coefficient_real = self.coefficient\n            coefficient_imag = 0\n",
  "        coefficient_real = self.coefficient.real\n        coefficient_imag = self.coefficient.imag\n")
S(P, "        if isinstance(other, PauliSum):\n            return other == self\n        cast_other = cast(PauliTerm, other)\n        return np.allclose(self.coefficient, cast_other.coefficient, rtol=0) and (np.allclose(self.coefficient, 0) or self.operations == cast_other.operations)",
  "        if isinstance(other, PauliSum):\n            return other == self\n        if not np.allclose(self.coefficient, other.coefficient, rtol=0):\n            return False\n        return np.allclose(self.coefficient, 0) or self.operations == other.operations")
S(P, "        if isinstance(other, PauliTerm):\n            return PauliSum([self, other]).simplify()\n        return self + PauliTerm('I0', other)", "        if not isinstance(other, PauliTerm):\n            other = PauliTerm('I0', other)\n        return PauliSum([self, other]).simplify()")
S(P, "        result_ops = self._ops.copy()\n", "        result_ops = dict(self._ops)\n")
S(P, "            del result_ops[index]\n", "            result_ops.pop(index)\n")
S(P, "elif op in ['X', 'Y', 'Z']:", "elif op in ('X', 'Y', 'Z'):")
S(P, "elif op in ['X', 'Y', 'Z']:", "elif op == 'X' or op == 'Y' or op == 'Z':")
S(P, "            result_ops[index] = OPERATOR_MAP[ord(self[index]) + ord(op)]\n            result_coeff *= COEFF_MAP[self[index] + op]", "            current = result_ops[index]\n            result_coeff = result_coeff * COEFF_MAP[current + op]\n            result_ops[index] = OPERATOR_MAP[ord(current) + ord(op)]")
S(P, "            result_coeff *= COEFF_MAP[self[index] + op]", "            result_coeff *= COEFF_MAP[f'{self[index]}{op}']")
S(P, "        elif isinstance(other, PauliTerm):\n            result_term = self.copy(new_coefficient=1)\n            for op, index in other:\n                if op != 'I':\n                    result_term = result_term._multiply_by_operator(op, index)\n            new_coeff = self.coefficient * other.coefficient\n            return result_term.copy(new_coefficient=result_term.coefficient * new_coeff)\n        return self.copy(self.coefficient * complex(other))",
  "        if not isinstance(other, PauliTerm):\n            return self.copy(self.coefficient * complex(other))\n        result_term = self.copy(new_coefficient=1)\n        for op, index in other:\n            if op == 'I':\n                continue\n            result_term = result_term._multiply_by_operator(op, index)\n        new_coeff = self.coefficient * other.coefficient\n        return result_term.copy(new_coefficient=result_term.coefficient * new_coeff)")
S(P, "        if not isinstance(power, int) or power < 0:\n            raise ValueError('The power must be", "        if not (isinstance(power, int) and power >= 0):\n            raise ValueError('The power must be")
S(P, "        term_strs = [f'{self[index]}{index}' for index in self._ops]\n        if len(term_strs) == 0:\n            term_strs.append('I')\n        return f'{self.coefficient}*{'*'.join(term_strs)}'",
  "        term_strs = [f'{op}{index}' for index, op in self._ops.items()] or ['I']\n        return str(self.coefficient) + '*' + '*'.join(term_strs)")
S(P, "return self._ops == {}", "return not self._ops")
S(P, "return self._ops == {}", "return len(self) == 0")
S(P, "return 0 if self.is_constant else max(self.qubits) + 1\n\nclass", "return max(self.qubits, default=-1) + 1\n\nclass")
S(P, "        if terms is None:\n            terms = []\n        if not (isinstance(terms, Sequence) and all([isinstance(term, PauliTerm) for term in terms])):",
  "        elif terms is None:\n            terms = []\n        if not isinstance(terms, Sequence) or any(not isinstance(term, PauliTerm) for term in terms):")
S(P, "terms = [PauliTerm(s.strip()) for s in re.split(", "terms = [PauliTerm(str.strip(s)) for s in re.split(")
S(P, "return self.terms.__iter__()", "return iter(self.terms)")
S(P, "return set(chain.from_iterable([term.qubits for term in self.terms]))", "return set().union(*[term.qubits for term in self.terms])")
S(P, "return set(chain.from_iterable([term.qubits for term in self.terms]))", "return {qubit for term in self.terms for qubit in term.qubits}")
S(P, "self._is_ising = all([term.is_ising for term in self.terms])", "self._is_ising = not any(not term.is_ising for term in self.terms)")
S(P, "            if len(self) == 0:\n                return np.allclose(other.coefficient, 0)\n            return self == PauliSum([other])", "            return self == PauliSum([other]) if len(self) > 0 else np.allclose(other.coefficient, 0)")
S(P, "            candidates = unmatched_terms.get(term.operations, [])\n            match = next((i for i, t in enumerate(candidates) if t == term), None)\n            if match is None:\n                return False\n            candidates.pop(match)\n        return True",
  "            candidates = unmatched_terms.get(term.operations, [])\n            for i, candidate in enumerate(candidates):\n                if candidate == term:\n                    del candidates[i]\n                    break\n            else:\n                return False\n        return True")
S(P, "            candidates.pop(match)\n", "            del candidates[match]\n")
S(P, "unmatched_terms.setdefault(term.operations, []).append(term)", "if term.operations not in unmatched_terms:\n                unmatched_terms[term.operations] = []\n            unmatched_terms[term.operations].append(term)")
S(P, "new_op = PauliSum([term.copy() for term in chain(self.terms, other.terms)])", "new_op = PauliSum([term.copy() for term in [*self.terms, *other.terms]])")
S(P, "new_op = PauliSum([term.copy() for term in chain(self.terms, other.terms)])", "new_op = PauliSum([term.copy() for term in self.terms] + [term.copy() for term in other.terms])")
S(P, "[left_term * right_term for left_term, right_term in product(self.terms, other_terms)]", "[left_term * right_term for left_term in self.terms for right_term in other_terms]")
S(P, "        like_terms: Dict[Hashable, List[PauliTerm]] = OrderedDict()\n        for term in self.terms:\n            key = term.operations\n            if key in like_terms:\n                like_terms[key].append(term)\n            else:\n                like_terms[key] = [term]\n",
  "        like_terms: Dict[Hashable, List[PauliTerm]] = {}\n        for term in self.terms:\n            like_terms.setdefault(term.operations, []).append(term)\n")
S(P, "        like_terms: Dict[Hashable, List[PauliTerm]] = OrderedDict()\n        for term in self.terms:\n            key = term.operations\n            if key in like_terms:\n                like_terms[key].append(term)\n            else:\n                like_terms[key] = [term]\n",
  "        like_terms = defaultdict(list)\n        for term in self.terms:\n            like_terms[term.operations].append(term)\n", imports="from collections import defaultdict")
S(P, "                coeff = sum((t.coefficient for t in term_list))\n", "                coeff = 0\n                for t in term_list:\n                    coeff += t.coefficient\n")
S(P, "terms.append(term_list[0].copy(new_coefficient=coeff))", "terms.append(first_term.copy(coeff))")
S(P, "if len(term_list) == 1 and (not np.isclose(first_term.coefficient, 0.0)):", "if not (len(term_list) != 1 or np.isclose(first_term.coefficient, 0.0)):")
S(P, "            if len(term_list) == 1 and (not np.isclose(first_term.coefficient, 0.0)):\n                terms.append(first_term)\n            else:\n                coeff = sum((t.coefficient for t in term_list))\n                if not np.isclose(coeff, 0.0):\n                    terms.append(term_list[0].copy(new_coefficient=coeff))",
  "            if len(term_list) == 1:\n                if not np.isclose(first_term.coefficient, 0.0):\n                    terms.append(first_term)\n                continue\n            coeff = sum((t.coefficient for t in term_list))\n            if not np.isclose(coeff, 0.0):\n                terms.append(first_term.copy(new_coefficient=coeff))")
S(P, "            zero_identity_term = PauliTerm('I0', 0)\n            return str(zero_identity_term)", "            return repr(PauliTerm('I0', 0))")
S(P, "return ' + '.join([str(term) for term in self.terms])", "return ' + '.join(map(str, self.terms))")
S(P, "return hash(tuple(self.terms))", "return hash((*self.terms,))")
S(P, "return len(self.terms) == 0 or all([term.is_constant for term in self.terms])", "return all(term.is_constant for term in self.terms)")
S(P, "return sum([term.coefficient for term in self.terms if term.is_constant])", "return sum(term.coefficient for term in self if term.is_constant)")
S(P, "return sum([term.coefficient for term in self.terms if term.is_constant])", "total = 0\n        for term in self.terms:\n            if term.is_constant:\n                total += term.coefficient\n        return total")
# utils of operators
S(U, "    if nrows != ncols:\n        raise Exception('The input operator is not square')", "    if not nrows == ncols:\n        raise Exception('The input operator is not square')")
S(U, "if not (nrows & nrows - 1 == 0 and nrows > 0):", "if nrows <= 0 or nrows & (nrows - 1) != 0:")
S(U, "        output_label = list(np.zeros(n))\n        for i in range(0, n):\n            output_label[i] = bin2dec(bit_string[2 * i:2 * i + 2])\n        return output_label", "        return [bin2dec(bit_string[2 * i:2 * i + 2]) for i in range(n)]")
S(U, "j_str[index] = int(not j_str[index])", "j_str[index] = 1 - j_str[index]")
S(U, "if label_vec[index] in [1, 2]:", "if label_vec[index] == 1 or label_vec[index] == 2:")
S(U, "            tr = tr + operator[j][f(j)] * nz(j)\n", "            tr += nz(j) * operator[j][f(j)]\n")
S(U, "        tr = 0.0\n        for j in range(0, 2 ** n):\n            tr = tr + operator[j][f(j)] * nz(j)\n        return tr / 2 ** n", "        return sum(operator[j][f(j)] * nz(j) for j in range(2 ** n)) / 2 ** n")
S(U, "    coeffs = list(np.zeros(4 ** n))\n    labels = list(np.zeros(4 ** n))\n    for i in range(0, 4 ** n):\n        current_string = dec2bin(i, 2 * n)\n        current_label = decode(current_string)\n        coeffs[i] = trace_product(current_label)\n        labels[i] = current_label\n", "    labels = [decode(dec2bin(i, 2 * n)) for i in range(4 ** n)]\n    coeffs = [trace_product(label) for label in labels]\n")
S(U, "    for i in range(0, len(labels)):\n        string_term = ''\n        for ind, elem in enumerate(labels[i]):", "    for i, label in enumerate(labels):\n        string_term = ''\n        for ind, elem in enumerate(label):")
S(U, "pauli_symbol = '*X' + str(ind)", "pauli_symbol = f'*X{ind}'")
S(U, "            string_term += pauli_symbol\n", "            string_term = string_term + pauli_symbol\n")
S(U, "        coeffs = [max_coeff] * nterms\n", "        coeffs = [max_coeff for _ in range(nterms)]\n")
S(U, "        coeffs = list(np.zeros(nterms))\n        for j in range(0, nterms):\n            coeffs[j] = random.uniform(-max_coeff, max_coeff)\n", "        coeffs = [random.uniform(-max_coeff, max_coeff) for _ in range(nterms)]\n")
S(U, "    for i, term in enumerate(operator.terms):\n        total += np.real(term.coefficient * expectation_values.values[i])\n    value_estimate = ValueEstimate(total)\n    return value_estimate", "    for index in range(len(operator.terms)):\n        total += np.real(operator.terms[index].coefficient * expectation_values.values[index])\n    return ValueEstimate(total)")
S(U, "    total = 0\n    for i, term in enumerate(operator.terms):\n        total += np.real(term.coefficient * expectation_values.values[i])\n", "    total = sum(np.real(term.coefficient * expectation_values.values[i]) for i, term in enumerate(operator.terms))\n")
S(U, "    total = 0\n    for i, term in enumerate(operator.terms):\n        total += np.real(term.coefficient * expectation_values.values[i])\n", "    total = 0\n    for i, term in enumerate(operator.terms):\n        total += (term.coefficient * expectation_values.values[i]).real\n")
S(U, "    term_index = 0\n    for operator in operator_list:\n        for term in operator.terms:\n            total += np.real(term.coefficient * expectation_values.values[term_index])\n            term_index += 1\n", "    all_terms = [term for operator in operator_list for term in operator.terms]\n    for term_index, term in enumerate(all_terms):\n        total += np.real(term.coefficient * expectation_values.values[term_index])\n")
S(U, "        new_term = {}\n        for qubit_num, operator_str in term.operations:\n            new_qubit_num = n_qubits - 1 - qubit_num\n            new_term[new_qubit_num] = operator_str\n", "        new_term = {n_qubits - (qubit_num + 1): operator_str for qubit_num, operator_str in term.operations}\n")
S(U, "            new_qubit_num = n_qubits - 1 - qubit_num\n            new_term[new_qubit_num] = operator_str\n", "            new_term[n_qubits - qubit_num - 1] = operator_str\n")
S(U, "        reversed_op += PauliTerm(new_term, term.coefficient)", "        reversed_op = reversed_op + PauliTerm(new_term, term.coefficient)")
S(U, "    if n_qubits is None:\n        n_qubits = qubit_operator.n_qubits\n    if n_qubits < qubit_operator.n_qubits:", "    if n_qubits is None:\n        n_qubits = qubit_operator.n_qubits\n    elif qubit_operator.n_qubits > n_qubits:")
S(U, "    sparse_op = get_sparse_operator(qubit_op, n_qubits=n_qubits)\n    exp_val = expectation(sparse_op, wavefunction.amplitudes)\n    return exp_val", "    return expectation(get_sparse_operator(qubit_op, n_qubits), wavefunction.amplitudes)")
S(U, "n_qubits = wavefunction.amplitudes.shape[0].bit_length() - 1", "n_qubits = len(wavefunction.amplitudes).bit_length() - 1")
S(U, "n_qubits = wavefunction.amplitudes.shape[0].bit_length() - 1", "n_qubits = int(np.log2(wavefunction.amplitudes.shape[0]))")
# io
S(IO, "        operator: List[Tuple[str, int]] = []\n        for pauli_op in term_dict['pauli_ops']:\n            operator.append((pauli_op['op'], pauli_op['qubit']))\n", "        operator = [(pauli_op['op'], pauli_op['qubit']) for pauli_op in term_dict['pauli_ops']]\n")
S(IO, "        coefficient = term_dict['coefficient']['real']\n        if term_dict['coefficient'].get('imag'):\n            coefficient += 1j * term_dict['coefficient']['imag']\n", "        coefficient_dict = term_dict['coefficient']\n        coefficient = coefficient_dict['real']\n        if coefficient_dict.get('imag'):\n            coefficient = coefficient + coefficient_dict['imag'] * 1j\n")
S(IO, "        full_operator += PauliTerm.from_iterable(operator, coefficient)\n", "        full_operator += PauliTerm.from_iterable(operator, coefficient=coefficient)\n")
S(IO, "    dictionary: Dict[str, Any] = {}\n    dictionary['terms'] = []\n    for term in op.terms:", "    dictionary: Dict[str, Any] = {'terms': []}\n    for term in op.terms:")
S(IO, "[{'qubit': op[0], 'op': op[1]} for op in term.operations]", "[{'qubit': qubit, 'op': pauli} for qubit, pauli in term.operations]")
S(IO, "[{'qubit': op[0], 'op': op[1]} for op in term.operations]", "[{'op': op[1], 'qubit': op[0]} for op in term.operations]")
S(IO, "term_dict['coefficient'] = {'real': term.coefficient.real}", "term_dict['coefficient'] = dict(real=term.coefficient.real)")
S(IO, "        f.write(json.dumps(convert_op_to_dict(operator), indent=2))", "        json.dump(convert_op_to_dict(operator), f, indent=2)")
S(IO, "    dictionary: Dict[str, Any] = {}\n    dictionary['operators'] = []\n    for operator in operator_set:\n        dictionary['operators'].append(convert_op_to_dict(operator))\n", "    dictionary = {'operators': [convert_op_to_dict(operator) for operator in operator_set]}\n")
S(IO, "    operator_set = []\n    for operator_dict in data['operators']:\n        operator_set.append(convert_dict_to_op(operator_dict))\n    return operator_set", "    return [convert_dict_to_op(operator_dict) for operator_dict in data['operators']]")
S(IO, "    operator_set = []\n    for operator_dict in data['operators']:\n        operator_set.append(convert_dict_to_op(operator_dict))\n    return operator_set", "    return list(map(convert_dict_to_op, data['operators']))")
S(IO, "        for pauli in sorted(term.operations):\n            pauli_string += pauli[1] + str(pauli[0])\n", "        for index, op in sorted(term.operations):\n            pauli_string += f'{op}{index}'\n")
S(IO, "        pauli_string = ''\n        for pauli in sorted(term.operations):\n            pauli_string += pauli[1] + str(pauli[0])\n        pauli_strings.append(pauli_string)", "        pauli_strings.append(''.join(pauli[1] + str(pauli[0]) for pauli in sorted(term.operations)))")
S(IO, "    with ensure_open(file) as f:\n        data = json.load(f)\n    return convert_dict_to_op(data)", "    with ensure_open(file) as f:\n        return convert_dict_to_op(json.load(f))")
# openfermion
S(OU, "        conjugate_operator = PauliSum()\n        for term in operator.terms:\n            conjugate_operator += term.copy(term.coefficient.conjugate())\n", "        conjugate_operator = PauliSum()\n        for term in operator.terms:\n            conjugate_operator = conjugate_operator + term.copy(new_coefficient=term.coefficient.conjugate())\n")
S(OU, "conjugate_operator = operator.copy(operator.coefficient.conjugate())", "conjugate_operator = operator.copy(numpy.conj(operator.coefficient))")
S(OU, "conjugate_operator = operator.T.conj()", "conjugate_operator = operator.conj().T")
S(OU, "        discrepancy = numpy.amax(abs(difference))\n", "        discrepancy = numpy.max(numpy.abs(difference))\n")
S(OU, "        discrepancy = 0.0\n        if difference.nnz:\n            discrepancy = max(abs(difference.data))\n        return discrepancy < EQ_TOLERANCE", "        discrepancy = max(abs(difference.data)) if difference.nnz else 0.0\n        return discrepancy < EQ_TOLERANCE")
S(SP, "        tensor_factor = 0\n        coefficient = qubit_term.coefficient\n        sparse_operators = [coefficient]\n", "        tensor_factor = 0\n        sparse_operators = [qubit_term.coefficient]\n")
S(SP, "                sparse_operators += [identity]\n            sparse_operators += [pauli_matrix_map[operator_str]]\n", "                sparse_operators.append(identity)\n            sparse_operators.append(pauli_matrix_map[operator_str])\n")
S(SP, "            if qubit_num > tensor_factor:\n                identity_qubits = qubit_num - tensor_factor\n                identity = scipy.sparse.identity(2 ** identity_qubits, dtype=complex, format='csc')", "            gap = qubit_num - tensor_factor\n            if gap > 0:\n                identity = scipy.sparse.identity(2 ** gap, dtype=complex, format='csc')")
S(SP, "            if qubit_num > tensor_factor:\n                identity_qubits = qubit_num - tensor_factor\n                identity = scipy.sparse.identity(2 ** identity_qubits, dtype=complex, format='csc')", "            if tensor_factor < qubit_num:\n                identity = scipy.sparse.identity(1 << (qubit_num - tensor_factor), format='csc', dtype=complex)")
S(SP, "    if not values_list:\n", "    if len(values_list) == 0:\n")
S(SP, "    return reduce(_wrapped_kronecker, *args)", "    return reduce(lambda a, b: scipy.sparse.kron(a, b, 'csc'), *args)")
S(SP, "    return scipy.sparse.kron(operator_1, operator_2, 'csc')", "    return scipy.sparse.kron(operator_1, operator_2, format='csc')")
S(SP, "expectation = numpy.dot(numpy.conjugate(state), operator * state)", "expectation = numpy.dot(state.conj(), operator * state)")
S(SP, "expectation = numpy.dot(numpy.conjugate(state), operator * state)", "expectation = numpy.vdot(state, operator * state)")
S(SP, "expectation = numpy.dot(numpy.conjugate(state), operator * state)", "expectation = numpy.conjugate(state) @ (operator @ state)")
S(SP, "if len(state.shape) == 1:", "if state.ndim == 1:")
# utils
S(T, "    array = np.array(dictionary['real'])\n    if dictionary.get('imag'):\n        array = array + 1j * np.array(dictionary['imag'])\n    return array", "    if dictionary.get('imag'):\n        return np.array(dictionary['real']) + 1j * np.array(dictionary['imag'])\n    return np.array(dictionary['real'])")
S(T, "    dictionary = {}\n    if np.iscomplexobj(array):\n        dictionary['real'] = array.real.tolist()\n        dictionary['imag'] = array.imag.tolist()\n    else:\n        dictionary['real'] = array.tolist()\n    return dictionary", "    if np.iscomplexobj(array):\n        return {'real': array.real.tolist(), 'imag': array.imag.tolist()}\n    return {'real': array.tolist()}")
S(T, "    bit_str = bin(number)\n    bit_str = bit_str[2:len(bit_str)]\n", "    bit_str = bin(number)[2:]\n")
S(T, "    bit_str = bin(number)\n    bit_str = bit_str[2:len(bit_str)]\n", "    bit_str = format(number, 'b')\n")
S(T, "    if len(bit_string) < length:\n        len_zeros = length - len(bit_string)\n        bit_string = [int(x) for x in list(np.zeros(len_zeros))] + bit_string\n", "    if len(bit_string) < length:\n        bit_string = [0] * (length - len(bit_string)) + bit_string\n")
S(T, "if pow(2, length) < number:", "if number > 2 ** length:")
S(T, "    dec = 0\n    coeff = 1\n    for i in range(len(x)):\n        dec = dec + coeff * x[len(x) - 1 - i]\n        coeff = coeff * 2\n    return dec", "    dec = 0\n    for bit in x:\n        dec = 2 * dec + bit\n    return dec")
S(T, "    dec = 0\n    coeff = 1\n    for i in range(len(x)):\n        dec = dec + coeff * x[len(x) - 1 - i]\n        coeff = coeff * 2\n    return dec", "    dec = 0\n    coeff = 1\n    for bit in reversed(x):\n        dec += coeff * bit\n        coeff *= 2\n    return dec")
S(T, "    dec = 0\n    coeff = 1\n    for i in range(len(x)):\n        dec = dec + coeff * x[len(x) - 1 - i]\n        coeff = coeff * 2\n    return dec", "    return sum(bit * 2 ** i for i, bit in enumerate(reversed(x)))")
S(T, "    measurements = [bitstring_to_tuple(bitstring) for bitstring in bitstrings]\n    return measurements", "    return list(map(bitstring_to_tuple, bitstrings))")
S(T, "tuple((int(bit) for bit in bitstring[::-1]))", "tuple(map(int, reversed(bitstring)))")
S(T, "tuple((int(bit) for bit in bitstring[::-1]))", "tuple([int(bit) for bit in reversed(bitstring)])")
S(T, "    return ''.join(map(str, tup))", "    return ''.join(str(bit) for bit in tup)")
S(T, "        return super_eq and self.precision == getattr(other, 'precision', None)", "        if not super_eq:\n            return False\n        return self.precision == getattr(other, 'precision', None)")
S(T, "        if self.precision is not None:\n            return f'{value_str} ± {self.precision}'\n        else:\n            return f'{value_str}'", "        if self.precision is None:\n            return value_str\n        return value_str + f' ± {self.precision}'")
S(T, "        if 'precision' in dictionary:\n            precision = dictionary['precision']\n            return cls(value, precision)\n        else:\n            return cls(value)", "        return cls(value, dictionary.get('precision'))")
S(T, "    dictionary: Dict[str, Any] = {}\n    dictionary['list'] = array\n    with open(filename, 'w') as f:\n        f.write(json.dumps(dictionary, indent=2))", "    with open(filename, 'w') as f:\n        json.dump({'list': array}, f, indent=2)")
S(T, "    dictionary_stored = {}\n    dictionary_stored.update(dictionary)\n    with", "    dictionary_stored = dict(dictionary)\n    with")
S(T, "    dictionary_stored = {}\n    dictionary_stored.update(dictionary)\n    with", "    dictionary_stored = {**dictionary}\n    with")
S(T, "return {symbol: param for symbol, param in zip(symbols, params.tolist())}", "return dict(zip(symbols, params.tolist()))")
S(T, "    frame_meas = convert_dict_to_array(data['frame_meas']) if 'frame_meas' in data else None\n    K_coeff = data['K']\n    nterms = data['nterms']\n    return (K_coeff, nterms, frame_meas)", "    frame_meas = None\n    if 'frame_meas' in data:\n        frame_meas = convert_dict_to_array(data['frame_meas'])\n    return data['K'], data['nterms'], frame_meas")
S(T, "    data: Dict[str, Any] = {}\n    data['K'] = nmeas\n    data['nterms'] = nterms\n", "    data: Dict[str, Any] = {'K': nmeas, 'nterms': nterms}\n")
S(T, "    value_sum = sum(values)\n    scale_factor = total / value_sum\n", "    scale_factor = total / sum(values)\n")
S(T, "    result = [int(value) for value in result]\n    assert sum(result)", "    result = list(map(int, result))\n    assert sum(result)")
S(T, "    remainders = [value * scale_factor - np.floor(value * scale_factor) for value in values]\n", "    remainders = [value * scale_factor - floored for value, floored in zip(values, result)]\n")
S(T, "    for index in range(int(round(total - sum(result)))):\n        result[indexes_sorted_by_remainder[index]] += 1\n", "    n_missing = int(round(total - sum(result)))\n    for index in indexes_sorted_by_remainder[:n_missing]:\n        result[index] += 1\n") if False else None
S(T, "    for index in range(int(round(total - sum(result)))):\n        result[indexes_sorted_by_remainder[index]] += 1\n", "    n_missing = int(round(total - sum(result)))\n    for index in range(n_missing):\n        position = indexes_sorted_by_remainder[index]\n        result[position] = result[position] + 1\n")
S(T, "        bitstring = '{0:b}'.format(i)\n        while len(bitstring) < num_qubits:\n            bitstring = '0' + bitstring\n        bitstrings.append(bitstring)", "        bitstrings.append('{0:b}'.format(i).zfill(num_qubits))")
S(T, "        bitstring = '{0:b}'.format(i)\n        while len(bitstring) < num_qubits:\n            bitstring = '0' + bitstring\n        bitstrings.append(bitstring)", "        bitstring = f'{i:b}'\n        bitstrings.append('0' * (num_qubits - len(bitstring)) + bitstring)")
S(T, "        with open(path_like, mode, encoding=encoding if 'b' not in mode else None) as f:\n            yield f", "        file_encoding = None if 'b' in mode else encoding\n        with open(path_like, mode, encoding=file_encoding) as f:\n            yield f")
S(T, "if set(mode).intersection(set('wxa+')) and (not path_like.writable()):", "if set(mode) & set('wxa+') and not path_like.writable():")
S(T, "if set(mode).intersection(set('wxa+')) and (not path_like.writable()):", "if any(flag in mode for flag in 'wxa+') and not path_like.writable():")

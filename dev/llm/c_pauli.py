P = "operators/_pauli_operators.py"
F(P, "_efficient_exponentiation", '''
def _efficient_exponentiation(
    pauli_rep: PauliRepresentation, power: int
) -> PauliRepresentation:
    if power == 0:
        return type(pauli_rep).identity()
    is_odd = power % 2 == 1
    if not is_odd:
        half = _efficient_exponentiation(pauli_rep, power // 2)
        return half * half
    return pauli_rep * _efficient_exponentiation(pauli_rep, power - 1)
''')
F(P, "_validate_type", '''
def _validate_type(object: Any) -> None:
    if isinstance(object, SUPPORTED_TYPES()):
        return
    raise TypeError(f"Can't carry out operation with object of type {type(object)}.")
''', pre='''
def SUPPORTED_TYPES():
    return (PauliSum, PauliTerm, int, float, complex)
''')
F(P, "_parse_complex", '''
def _parse_complex(complex_str: str) -> complex:
    value = complex(complex_str.replace(" ", ""))
    has_both_parts = value.real != 0 and value.imag != 0
    if has_both_parts and not _is_in_brackets(complex_str):
        raise ValueError(
            "Complex number with nonzero real and imaginary part has to be "
            "enclosed in bracket."
        )
    return value
''')
F(P, "_parse_operator", '''
def _parse_operator(op_str: str) -> Tuple[int, str]:
    match = re.match(r"([XYZI])([0-9]+)$", op_str, re.I)
    if match is None:
        raise ValueError("Badly formatted string representation passed.")
    symbol, index = match.groups()
    return int(index), symbol.upper()
''')
F(P, "_parse_operators_and_coefficient", '''
def _parse_operators_and_coefficient(
    term_str: str,
) -> Tuple[Optional[complex], Dict[int, str]]:
    coef, operators_strs = _split_off_coefficient(
        re.split(r"\\ *\\*\\ *", term_str.strip(" "))
    )
    operators_strs = [s for s in operators_strs if not s == "I"]
    operators_dict = {}
    for s in operators_strs:
        index, op = _parse_operator(s)
        operators_dict[index] = op

    if len(operators_strs) != len(operators_dict):
        raise ValueError("Duplicate qubit index in a term detected.")

    return coef, operators_dict
''', pre='''
def _split_off_coefficient(parts):
    try:
        return _parse_complex(parts[0]), parts[1:]
    except ValueError:
        return None, parts
''')
F(P, "PauliTerm.__init__", '''
def __init__(
    self,
    operator: Union[str, Dict[int, str]],
    coefficient: Optional[complex] = None,
):
    if isinstance(operator, str):
        operator, coefficient = self._from_string(operator, coefficient)

    if any(qubit_idx < 0 for qubit_idx in operator):
        raise ValueError(
            "Invalid qubit index in dictionary keys. "
            "Make sure all qubit indices are non-negative integers."
        )

    if any(op not in ALLOWED_OPERATORS for op in operator.values()):
        raise ValueError(
            "Invalid operators in dictionary. "
            f"Allowed ones are {ALLOWED_OPERATORS}."
        )

    self._ops: Dict[int, str] = {}
    for idx, op in operator.items():
        if op != "I":
            self._ops[idx] = op
    if coefficient is None:
        coefficient = 1.0
    self.coefficient = coefficient
''', post='''
@staticmethod
def _from_string(operator, coefficient):
    parsed_coefficient, parsed = _parse_operators_and_coefficient(operator)
    if parsed_coefficient is None:
        return parsed, coefficient
    if coefficient is not None:
        raise ValueError(
            "Coefficient can be provided either in an argument or string "
            "representation (but not both)."
        )
    return parsed, parsed_coefficient
''')
F(P, "PauliTerm.from_iterable", '''
@staticmethod
def from_iterable(
    terms: Iterable[Tuple[str, int]], coefficient: complex = 1.0
) -> "PauliTerm":
    if terms:
        _, idx_list = zip(*terms)

        if not all(isinstance(op, tuple) for op in terms):
            raise ValueError("The list can only contain tuples.")

        if len(idx_list) != len(set(idx_list)):
            raise ValueError("Duplicate indices used in list.")

    result_dict = {}
    for op, idx in terms:
        if op == "I":
            continue
        result_dict[idx] = op
    return PauliTerm(result_dict, coefficient)
''')
F(P, "PauliTerm.copy", '''
def copy(self, new_coefficient: Optional[complex] = None) -> "PauliTerm":
    return PauliTerm(
        self._ops,
        self.coefficient if new_coefficient is None else new_coefficient,
    )
''')
F(P, "PauliTerm.qubits", '''
@property
def qubits(self) -> Set[int]:
    return {index for index in self._ops}
''')
F(P, "PauliTerm.is_ising", '''
@property
def is_ising(self) -> bool:
    if self.is_constant:
        return True
    return set(self._ops.values()) == {"Z"}
''')
F(P, "PauliTerm.is_ising", '''
@property
def is_ising(self) -> bool:
    return all(op == "Z" for op in self._ops.values())
''', name="pauli:is_ising-all")
F(P, "PauliTerm.circuit", '''
@property
def circuit(self) -> Circuit:
    if not hasattr(self, "_circuit"):
        operations = []
        for op, index in self:
            gate = builtin_gate_by_name(op)
            operations.append(cast(Operation, gate(index)))
        self._circuit = Circuit(operations)
    return self._circuit
''')
F(P, "PauliTerm.__getitem__", '''
def __getitem__(self, i: int) -> str:
    if i in self._ops:
        return self._ops[i]
    warnings.warn("Index not in term! Identity is returned.", UserWarning)
    return "I"
''')
F(P, "PauliTerm.__iter__", '''
def __iter__(self) -> Iterator[Tuple[str, int]]:
    return ((self[i], i) for i in self.qubits)
''')
F(P, "PauliTerm.__hash__", '''
def __hash__(self) -> int:
    real, imag = self._real_and_imag_coefficient()
    return hash(
        (round(real * HASH_PRECISION), round(imag * HASH_PRECISION), self.operations)
    )
''', post='''
def _real_and_imag_coefficient(self):
    if not isinstance(self.coefficient, complex):
        return self.coefficient, 0
    return self.coefficient.real, self.coefficient.imag
''')
F(P, "PauliTerm.__eq__", '''
def __eq__(self, other: object) -> bool:
    if isinstance(other, PauliSum):
        return other == self
    if isinstance(other, (int, float, complex)):
        return self == PauliTerm("I0", other)
    if not isinstance(other, PauliTerm):
        raise TypeError(f"Can't compare with object of type {type(other)}")

    if not np.allclose(self.coefficient, other.coefficient, rtol=0):
        return False
    return np.allclose(self.coefficient, 0) or self.operations == other.operations
''')
F(P, "PauliTerm.__add__", '''
def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
    _validate_type(other)

    if isinstance(other, PauliSum):
        return other + self

    other_term = other if isinstance(other, PauliTerm) else PauliTerm("I0", other)
    return PauliSum([self, other_term]).simplify()
''')
F(P, "PauliTerm._multiply_by_operator", '''
def _multiply_by_operator(self, op: str, index: int) -> "PauliTerm":
    result_coeff = self.coefficient
    result_ops = dict(self._ops)
    current_op = result_ops.get(index)

    if current_op is None:
        result_ops[index] = op
    elif current_op == op:
        result_ops.pop(index)
    elif op in ("X", "Y", "Z"):
        result_ops[index] = OPERATOR_MAP[ord(current_op) + ord(op)]
        result_coeff = result_coeff * COEFF_MAP[current_op + op]
    else:
        raise ValueError(f"Unsupported operation. Got {op}.")

    return PauliTerm(result_ops, result_coeff)
''')
F(P, "PauliTerm.__mul__", '''
def __mul__(
    self, other: Union[PauliRepresentation, complex]
) -> PauliRepresentation:
    _validate_type(other)

    if isinstance(other, PauliSum):
        return (PauliSum([self]) * other).simplify()
    if not isinstance(other, PauliTerm):
        return self.copy(self.coefficient * complex(other))
    return self._multiply_by_term(other)
''', post='''
def _multiply_by_term(self, other):
    product_term = self.copy(new_coefficient=1)
    for op, index in other:
        if op == "I":
            continue
        product_term = product_term._multiply_by_operator(op, index)
    return product_term.copy(
        new_coefficient=product_term.coefficient * (self.coefficient * other.coefficient)
    )
''')
F(P, "PauliTerm.__pow__", '''
def __pow__(self, power: int) -> "PauliTerm":
    if isinstance(power, int) and power >= 0:
        return cast(PauliTerm, _efficient_exponentiation(self.copy(), power))
    raise ValueError("The power must be a non-negative integer.")
''')
F(P, "PauliTerm.is_constant", '''
@property
def is_constant(self) -> bool:
    return not self._ops
''')
F(P, "PauliTerm.is_constant", '''
@property
def is_constant(self) -> bool:
    return len(self._ops) == 0
''', name="pauli:is_constant-len")
F(P, "PauliTerm.n_qubits", '''
@property
def n_qubits(self) -> int:
    if self.is_constant:
        return 0
    return max(self.qubits) + 1
''')
F(P, "PauliSum.__init__", '''
def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
    if terms is None:
        terms = []
    elif isinstance(terms, str):
        terms = [
            PauliTerm(s.strip()) for s in re.split(r"(?<![eE])\\+(?![^(]*\\))", terms)
        ]

    valid = isinstance(terms, Sequence) and all(
        isinstance(term, PauliTerm) for term in terms
    )
    if not valid:
        raise ValueError(
            "PauliSums can be constructed only from Sequences of PauliTerms."
        )
    self.terms: Sequence[PauliTerm] = cast(Sequence[PauliTerm], terms)
''')
F(P, "PauliSum.qubits", '''
@property
def qubits(self) -> Set[int]:
    qubits: Set[int] = set()
    for term in self.terms:
        qubits |= term.qubits
    return qubits
''', name="paulisum:qubits-ior")
F(P, "PauliSum.qubits", '''
@property
def qubits(self) -> Set[int]:
    return {qubit for term in self.terms for qubit in term.qubits}
''', name="paulisum:qubits-comp")
F(P, "PauliSum.qubits", '''
@property
def qubits(self) -> Set[int]:
    return set().union(*(term.qubits for term in self.terms))
''', name="paulisum:qubits-union")
F(P, "PauliSum.is_ising", '''
@property
def is_ising(self) -> bool:
    if hasattr(self, "_is_ising"):
        return self._is_ising
    self._is_ising = not any(not term.is_ising for term in self.terms)
    return self._is_ising
''')
F(P, "PauliSum.__eq__", '''
def __eq__(self, other: object) -> bool:
    _validate_type(other)

    if isinstance(other, (int, float, complex)):
        return self == PauliTerm("I0", complex(other))

    if isinstance(other, PauliTerm):
        if len(self) != 0:
            return self == PauliSum([other])
        return np.allclose(other.coefficient, 0)

    other = cast(PauliSum, other)
    if len(self) != len(other):
        return False
    return self._terms_match(other)
''', post='''
def _terms_match(self, other):
    unmatched_terms: Dict[Hashable, List[PauliTerm]] = {}
    for term in other.terms:
        if term.operations not in unmatched_terms:
            unmatched_terms[term.operations] = []
        unmatched_terms[term.operations].append(term)

    for term in self.terms:
        candidates = unmatched_terms.get(term.operations, [])
        for i, candidate in enumerate(candidates):
            if candidate == term:
                break
        else:
            return False
        candidates.pop(i)
    return True
''')
F(P, "PauliSum.__add__", '''
def __add__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
    _validate_type(other)

    if isinstance(other, PauliSum):
        other_terms = other.terms
    elif isinstance(other, PauliTerm):
        other_terms = [other]
    else:
        other_terms = [PauliTerm("I0", other)]

    copies = [term.copy() for term in self.terms]
    copies += [term.copy() for term in other_terms]
    return PauliSum(copies).simplify()
''')
F(P, "PauliSum.__mul__", '''
def __mul__(self, other: Union[PauliRepresentation, complex]) -> "PauliSum":
    _validate_type(other)

    if isinstance(other, PauliSum):
        other_terms = other.terms
    else:
        other_terms = [cast(PauliTerm, PauliTerm.identity() * other)]

    new_terms = []
    for left_term in self.terms:
        for right_term in other_terms:
            new_terms.append(left_term * right_term)
    return PauliSum(cast(Sequence[PauliTerm], new_terms)).simplify()
''')
F(P, "PauliSum.simplify", '''
def simplify(self) -> "PauliSum":
    like_terms: Dict[Hashable, List[PauliTerm]] = {}
    for term in self.terms:
        like_terms.setdefault(term.operations, []).append(term)

    terms = []
    for group in like_terms.values():
        first = group[0]
        if len(group) == 1 and not np.isclose(first.coefficient, 0.0):
            terms.append(first)
            continue
        coeff = sum(t.coefficient for t in group)
        if np.isclose(coeff, 0.0):
            continue
        terms.append(first.copy(new_coefficient=coeff))
    return PauliSum(terms)
''', name="paulisum:simplify-setdefault")
F(P, "PauliSum.simplify", '''
def simplify(self) -> "PauliSum":
    merged = (self._merge(group) for group in self._group_like_terms().values())
    return PauliSum([term for term in merged if term is not None])
''', post='''
def _group_like_terms(self):
    like_terms: Dict[Hashable, List[PauliTerm]] = OrderedDict()
    for term in self.terms:
        if term.operations not in like_terms:
            like_terms[term.operations] = []
        like_terms[term.operations].append(term)
    return like_terms

@staticmethod
def _merge(term_list):
    first_term = term_list[0]
    if len(term_list) == 1 and not np.isclose(first_term.coefficient, 0.0):
        return first_term
    coeff = sum(t.coefficient for t in term_list)
    if np.isclose(coeff, 0.0):
        return None
    return first_term.copy(new_coefficient=coeff)
''', name="paulisum:simplify-helpers")
F(P, "PauliSum.__repr__", '''
def __repr__(self):
    if len(self) == 0:
        return str(PauliTerm("I0", 0))
    return " + ".join(map(str, self.terms))
''')
F(P, "PauliSum.is_constant", '''
@property
def is_constant(self) -> bool:
    return all(term.is_constant for term in self.terms)
''')
F(P, "PauliSum.constant_term", '''
@property
def constant_term(self) -> Union[Number, complex]:
    total = 0
    for term in self.terms:
        if term.is_constant:
            total += term.coefficient
    return total
''')
F(P, "PauliSum.n_qubits", '''
@property
def n_qubits(self) -> int:
    return max(self.qubits) + 1 if not self.is_constant else 0
''')

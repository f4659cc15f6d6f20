G = "circuits/_gates.py"
F(G, "GateOperation.lifted_matrix", '''
def lifted_matrix(self, num_qubits):
    if self.gate.free_symbols:
        lift = _lift_matrix_sympy
    else:
        lift = _lift_matrix_numpy
    return lift(self.gate.matrix, self.qubit_indices, num_qubits)
''')
F(G, "GateOperation.apply", '''
def apply(self, amplitude_vector: ParameterizedVector) -> ParameterizedVector:
    dimension = len(amplitude_vector)
    num_qubits = np.log2(dimension)
    if dimension == 2**num_qubits:
        return self.lifted_matrix(int(num_qubits)) @ amplitude_vector
    raise ValueError(
        "GateOperation can only be applied to multi-qubit state vector but "
        f"vector of length {dimension} was provided."
    )
''')
F(G, "GateOperation.bind", '''
def bind(self, symbols_map: Dict[sympy.Symbol, Parameter]) -> "GateOperation":
    return replace(self, gate=self.gate.bind(symbols_map))
''')
F(G, "_all_attrs_equal", '''
def _all_attrs_equal(obj, other_obj, attrs):
    for attr in attrs:
        if getattr(obj, attr) != getattr(other_obj, attr):
            return False
    return True
''')
F(G, "MatrixFactoryGate.bind", '''
def bind(self, symbols_map) -> "MatrixFactoryGate":
    new_params = tuple(map(lambda p: sub_symbols(p, symbols_map), self.params))
    return replace(self, params=new_params)
''')
F(G, "MatrixFactoryGate.__eq__", '''
def __eq__(self, other):
    if type(self) != type(other):
        return False

    other_fields = set(self.__dataclass_fields__) - {"params"}
    return (
        _all_attrs_equal(self, other, other_fields)
        and len(self.params) == len(other.params)
        and all(map(_are_matrix_elements_equal, self.params, other.params))
    )
''', name="gates:eq-and-map")
F(G, "MatrixFactoryGate.__eq__", '''
def __eq__(self, other):
    if type(self) is not type(other):
        return False

    if not _all_attrs_equal(
        self, other, set(self.__dataclass_fields__) - {"params"}
    ):
        return False

    return self._params_equal(other)
''', post='''
def _params_equal(self, other):
    if len(self.params) != len(other.params):
        return False
    for p1, p2 in zip(self.params, other.params):
        if not _are_matrix_elements_equal(p1, p2):
            return False
    return True
''', name="gates:eq-method")
F(G, "ControlledGate.matrix", '''
@property
def matrix(self):
    full_dim = 2**self.num_qubits
    target_dim = 2**self.wrapped_gate.num_qubits
    identity_block = sympy.eye(full_dim - target_dim)
    return sympy.Matrix.diag(identity_block, self.wrapped_gate.matrix)
''')
F(G, "ControlledGate.controlled", '''
def controlled(self, num_control_qubits: int) -> "ControlledGate":
    total = self.num_control_qubits + num_control_qubits
    return replace(self, num_control_qubits=total)
''')
F(G, "ControlledGate.dagger", '''
@property
def dagger(self) -> "ControlledGate":
    return self._rewrap(self.wrapped_gate.dagger)
''', post='''
def _rewrap(self, gate):
    return ControlledGate(gate, self.num_control_qubits)
''')
F(G, "Dagger.__str__", '''
def __str__(self):
    name, *rest = str(self.wrapped_gate).split("(")
    return "(".join([name + "†", *rest])
''')
F(G, "Exponential.__post_init__", '''
def __post_init__(self):
    _raise_if_parametrized(
        self.wrapped_gate, "Cannot be perform exponential on gates with free symbols"
    )
''', post='''
''', pre='''
def _raise_if_parametrized(gate, message):
    if gate.free_symbols:
        raise ValueError(message)
''')
F(G, "Power.matrix", '''
@property
def matrix(self) -> sympy.Matrix:
    base = self.wrapped_gate.matrix
    return base.pow(self.exponent) if False else base**self.exponent
''')
F(G, "_n_qubits", '''
def _n_qubits(matrix):
    n_rows, n_cols = matrix.shape
    n_qubits = math.floor(math.log2(n_rows))
    dim = 2**n_qubits
    if not (dim == n_rows and dim == n_cols):
        raise ValueError("Gate's matrix has to be square with dimension 2^N")
    return n_qubits
''')
F(G, "CustomGateMatrixFactory.__call__", '''
def __call__(self, *gate_params):
    substitutions = dict(zip(self.params_ordering, gate_params))
    return self.matrix.subs(substitutions, simultaneous=True)
''')
F(G, "CustomGateMatrixFactory.__eq__", '''
def __eq__(self, other):
    return (
        type(self) == type(other)
        and self.params_ordering == other.params_ordering
        and _are_matrices_equal(self.matrix, other.matrix)
    )
''')
F(G, "CustomGateDefinition.__eq__", '''
def __eq__(self, other):
    if type(self) != type(other):
        return False
    if (
        self.gate_name != other.gate_name
        or self.params_ordering != other.params_ordering
    ):
        return False
    return _are_matrices_equal(self.matrix, other.matrix)
''')
F(G, "_are_matrix_elements_equal", '''
def _are_matrix_elements_equal(element, another_element):
    difference = sympy.N(sympy.expand(element) - sympy.expand(another_element))
    try:
        real_part = float(sympy.re(difference))
        imag_part = float(sympy.im(difference))
    except TypeError:
        return False
    return np.allclose(real_part + 1j * imag_part, 0)
''')
F(G, "_are_matrices_equal", '''
def _are_matrices_equal(matrix, another_matrix):
    for pair in zip(matrix, another_matrix):
        if not _are_matrix_elements_equal(*pair):
            return False
    return True
''')
F(G, "check_has_non_commuting_gate_type", '''
def check_has_non_commuting_gate_type(self, non_commuting_gate_types):
    wrapped_gate = self.wrapped_gate
    found = type(wrapped_gate) in non_commuting_gate_types
    while hasattr(wrapped_gate, "wrapped_gate"):
        wrapped_gate = wrapped_gate.wrapped_gate
    return found
''')

################################################################################
# © Copyright 2020-2022 Zapata Computing Inc.
################################################################################
"""This module contains functions and classes for pauli representations of operators."""
from ._io import (
    convert_dict_to_op,
    convert_op_to_dict,
    get_pauli_strings,
    load_operator,
    load_operator_set,
    save_operator,
    save_operator_set,
)
from ._openfermion_utils import (
    EQ_TOLERANCE,
    expectation,
    get_sparse_operator,
    hermitian_conjugated,
    is_hermitian,
)
from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
from ._utils import get_expectation_value, reverse_qubit_order

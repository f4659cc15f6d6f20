################################################################################
# © Copyright 2021-2022 Zapata Computing Inc.
################################################################################
from ._decomposition import decompose_operations
from ._orquestra_decompositions import U3GateToRotation, decompose_orquestra_circuit

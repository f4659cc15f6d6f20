################################################################################
# © Copyright 2022 Zapata Computing Inc.
################################################################################
from .expectation_values import (
    ExpectationValues,
    concatenate_expectation_values,
    expectation_values_to_real,
    get_expectation_values_from_parities,
    load_expectation_values,
    save_expectation_values,
)
from .measurements import (
    Measurements,
    _check_sample_elimination,
    _convert_bitstrings_to_vector,
    convert_bitstring_to_int,
    get_expectation_value_from_frequencies,
)
from .parities import (
    Parities,
    check_parity,
    check_parity_of_vector,
    get_parities_from_measurements,
    load_parities,
    save_parities,
)

################################################################################
# © Copyright 2021-2022 Zapata Computing Inc.
################################################################################
from ._estimation import (
    calculate_exact_expectation_values,
    estimate_expectation_values_by_averaging,
    evaluate_estimation_circuits,
    evaluate_non_measured_estimation_tasks,
    split_estimation_tasks_to_measure,
)

################################################################################
# © Copyright 2021-2022 Zapata Computing Inc.
################################################################################
from ._sorting import natural_key, natural_key_fixed_names_order, natural_key_revlex

"""Law rules: obligations decided from the current source alone."""
from __future__ import annotations

import importlib

from compare import HOLDS, UNDECIDED, VIOLATED

RULES: dict = {}


class Ob:
    __slots__ = ("id", "status", "loc", "detail")

    def __init__(self, id, status, loc="", detail=()):
        self.id, self.status, self.loc, self.detail = id, status, loc, list(detail)


def rule(*pids):
    def deco(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def load():
    for n in ("law_effects", "law_alias", "law_objects", "law_gates", "law_cache"):
        importlib.import_module(n)
    return RULES

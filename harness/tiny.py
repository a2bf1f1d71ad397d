"""Tiny custom-math Calliope models: full control over the math, fast to build and solve."""

from __future__ import annotations

import copy
import json
import os
from pathlib import Path

from harness import common

EMPTY = str(common.VERIF / "harness/data/empty_math.yaml")
PREDEFINED = ("base", "milp", "operate", "spores", "storage_inter_cluster")

DIMS = {
    "techs": {"iterator": "tech"},
    "nodes": {"iterator": "node"},
    "carriers": {"iterator": "carrier"},
    "timesteps": {"iterator": "timestep", "dtype": "datetime"},
}
LOOKUPS = {
    "definition_matrix": {"dtype": "bool", "default": False},
    "carrier_in": {"dtype": "bool", "default": False, "pivot_values_to_dim": "carriers"},
    "carrier_out": {"dtype": "bool", "default": False, "pivot_values_to_dim": "carriers"},
    "base_tech": {"dtype": "string"},
}


def math(dimensions=None, parameters=None, lookups=None, **components):
    m = {
        "dimensions": {**copy.deepcopy(DIMS), **(dimensions or {})},
        "parameters": {"q": {}, **(parameters or {})},
        "lookups": {**copy.deepcopy(LOOKUPS), **(lookups or {})},
    }
    m.update({k: v for k, v in components.items() if v})
    return m


_DIR = None


def write(m: dict, name="math") -> str:
    """Write math (or any dict) as YAML (JSON is YAML); returns its path."""
    global _DIR
    if _DIR is None or not os.path.isdir(_DIR[1]) or _DIR[0] != os.getpid():
        _DIR = (os.getpid(), str(common.scratch("tiny")))
    k = len(os.listdir(_DIR[1]))
    p = Path(_DIR[1]) / f"{name}{k}.yaml"
    p.write_text(json.dumps(m).replace("Infinity", ".inf"))
    return str(p)


def definition(m: dict, data=None, techs=None, nodes=None, init=None, build=None, solve=None, nts=2, start="2005-01-01"):
    """A model definition dictionary using math `m` as its base math."""
    import pandas as pd

    paths = {k: EMPTY for k in PREDEFINED}
    paths["base"] = write(m)
    ts = [str(t) for t in pd.date_range(start, periods=nts, freq="h")]
    d = {
        "config": {
            "init": {"name": "tiny", "math_paths": paths, **(init or {})},
            "build": {"backend": "pyomo", **(build or {})},
            "solve": {"solver": "cbc", **(solve or {})},
        },
        "data_definitions": {"q": {"data": list(range(1, nts + 1)), "index": ts, "dims": "timesteps"}, **(data or {})},
        "techs": techs or {"s": {"base_tech": "supply", "carrier_out": "e"}, "d": {"base_tech": "demand", "carrier_in": "e"}},
        "nodes": nodes or {"a": {"techs": {"s": None, "d": None}}},
    }
    return d

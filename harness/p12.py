"""P12: the inputs are exactly those of the active technologies at the active nodes (spec/Inputs.tla)."""

from __future__ import annotations

from harness import common, inputs


def run(check):
    import calliope  # noqa: F401

    n = check.n(900, 12000)
    jobs = [(f"yaml-{i}", f"{check.seed}/P12/{i}", "yaml") for i in range(n)]
    inputs.judge(check, common.pmap(inputs.case, jobs, chunksize=8))

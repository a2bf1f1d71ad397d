"""P11: a data table says the same in every layout, and nothing but what it holds (spec/Tables.tla, TablesMC.tla, Inputs.tla)."""

from __future__ import annotations

from harness import common, inputs


def run(check):
    import calliope  # noqa: F401

    out = common.model_check("TablesMC", workers=1)
    layouts = common.tlc_prints(out)
    if not check.thorough():
        layouts = check.rng.sample(layouts, 200)
    jobs = [(f"layout-{i}", f"{check.seed}/layout/{i}", x) for i, x in enumerate(layouts)]
    n = check.n(500, 8000)
    jobs += [(f"tables-{i}", f"{check.seed}/P11/{i}", "tables") for i in range(n)]
    inputs.judge(check, common.pmap(inputs.case, jobs, chunksize=8))
    check.coverage["layouts_of_the_specification_loaded"] = len(layouts)

"""P15 (spec/Sem.tla, Math.tla)."""

from harness import common, mathrun, tiny


def ge_probe(arg=None):
    """A constraint over a global expression that holds arithmetic with an undefined value."""
    import calliope

    d = common.scratch("p15")
    m = tiny.math(
        variables={"free": {"bounds": {"min": 0, "max": 10}, "domain": "real"}, "v": {"foreach": ["nodes"], "bounds": {"min": 0, "max": 10}, "domain": "real"}},
        parameters={"kx": {}},
        global_expressions={"g": {"foreach": ["nodes"], "equations": [{"expression": "v + kx"}]}},
        constraints={"c": {"foreach": ["nodes"], "equations": [{"expression": "g <= 5"}]}},
        objectives={"obj": {"equations": [{"expression": "-sum(v, over=nodes)"}], "sense": "minimise"}})
    try:
        model = calliope.read_dict(tiny.definition(m, build={"backend": "pyomo", "objective": "obj"}))
        model.build()
    except Exception as e:
        return {"id": "undefined-through-global-expression", "leaked": False, "error": common.err_of(e)}
    return {"id": "undefined-through-global-expression", "leaked": mathrun.handed_over(model.backend, d), "math": m}


def run(check):
    mathrun.run(check, "expr", 180, 1500)
    r = common.pmap(ge_probe, [None])[0]
    check.traces += 1
    if r["leaked"]:
        check.fail(r["id"], ["UndefinedNeverHandedOver"], r)

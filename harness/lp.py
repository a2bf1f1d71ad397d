"""Reading the LP files written by `backend.to_lp()` (pyomo and gurobi): the problem the solver gets."""

from __future__ import annotations

import contextlib
import math
import re
from pathlib import Path

from harness import common

INF = float("inf")


def canon_coord(s: str) -> str:
    return re.sub(r"[^A-Za-z0-9]+", "_", s.strip()).strip("_")


def split_name(tok: str):
    """-> (kind or None, component, (coords...))"""
    m = re.fullmatch(r"(?:c_[a-z]_)?(\w+?)\(([^()]*)\)(?:\((.*?)\))?(_?)", tok)
    if m:  # pyomo
        coords = m.group(3)
        parts = tuple(canon_coord(c) for c in coords.split("__")) if coords not in (None, "") else ()
        return m.group(1), m.group(2), parts
    m = re.fullmatch(r"(\w+)\[(.*)\]", tok)
    if m:  # gurobi
        parts = tuple(canon_coord(c) for c in m.group(2).split(",")) if m.group(2) else ()
        return None, m.group(1), parts
    return None, tok, ()


_NUM = r"[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf(?:inity)?)"


def _num(s):
    s = s.replace(" ", "").lower()
    if s.lstrip("+-").startswith("inf"):
        return -INF if s.startswith("-") else INF
    return float(s)


class Problem:
    def __init__(self):
        self.sense = "min"
        self.objname = None
        self.obj = {}  # var -> coef
        self.const = 0.0
        self.rows = {}  # (component, coords) -> (terms dict, sense, rhs)
        self.bounds = {}  # var -> [lb, ub]
        self.integer = set()
        self.quad = {}

    def vars(self):
        s = set(self.obj) | set(self.bounds) | self.integer
        for t, _, _ in self.rows.values():
            s |= set(t)
        return s


def _terms(tokens):
    """tokens of a linear expression -> dict token -> coef, constant."""
    out: dict = {}
    const = 0.0
    sign, coef = 1.0, None
    for t in tokens:
        if t[:2] in ("+-", "--"):
            t = ("-" if t[0] == "+" else "+") + t[2:]
        if t in "+-":
            if coef is not None:
                const += sign * coef
                coef = None
                sign = 1.0
            sign = -1.0 if t == "-" else 1.0
        elif re.fullmatch(_NUM, t):
            if coef is not None:
                const += sign * coef
                sign = 1.0
            v = _num(t)
            if t[0] in "+-":
                sign, v = (-1.0 if t[0] == "-" else 1.0), abs(v)
            coef = v
        else:
            out[t] = out.get(t, 0.0) + sign * (1.0 if coef is None else coef)
            coef, sign = None, 1.0
    if coef is not None:
        const += sign * coef
    return out, const


def parse(text: str) -> Problem:
    p = Problem()
    section = None
    buf: list[str] = []
    chunks: dict[str, list[str]] = {"obj": [], "st": [], "bounds": [], "int": [], "bin": []}
    for line in text.splitlines():
        s = line.strip()
        if not s or s.startswith("\\"):
            continue
        low = s.lower()
        if low in ("min", "minimize", "max", "maximize"):
            section, p.sense = "obj", low[:3]
            continue
        if low in ("s.t.", "subject to", "st"):
            section = "st"
            continue
        if low in ("bounds",):
            section = "bounds"
            continue
        if low in ("general", "generals", "integer", "integers"):
            section = "int"
            continue
        if low in ("binary", "binaries"):
            section = "bin"
            continue
        if low in ("sos", "sos1", "sos2", "general constraints", "pwlobj"):
            section = "other"
            continue
        if low == "end":
            break
        if section in chunks:
            chunks[section].append(s)
    pyomo = "Source Pyomo model" in text

    otoks = " ".join(chunks["obj"]).split()
    if otoks and otoks[0].endswith(":"):
        p.objname = split_name(otoks[0][:-1])[1]
        otoks = otoks[1:]
    terms, const = _terms(otoks)
    for t, c in terms.items():
        if t in ("ONE_VAR_CONSTANT", "Constant"):
            p.const += c
        else:
            p.obj[t] = p.obj.get(t, 0.0) + c
    p.const += const

    # constraints: "name:" expr sense rhs
    toks = " ".join(chunks["st"]).split()
    i = 0
    while i < len(toks):
        name = toks[i]
        assert name.endswith(":"), name
        name = name[:-1]
        j = i + 1
        while toks[j] not in ("<=", ">=", "=", "<", ">", "=="):
            j += 1
        terms, const = _terms(toks[i + 1 : j])
        sense = {"<": "<=", ">": ">=", "==": "="}.get(toks[j], toks[j])
        rhs = _num(toks[j + 1]) - const
        k = j + 2
        p.rows[name] = (terms, sense, rhs)
        i = k

    for s in chunks["bounds"]:
        t = s.split()
        if len(t) == 5:
            p.bounds[t[2]] = [_num(t[0]), _num(t[4])]
        elif len(t) == 2 and t[1].lower() == "free":
            p.bounds[t[0]] = [-INF, INF]
        elif len(t) == 3:
            if re.fullmatch(_NUM, t[0]):
                t = [t[2], {"<=": ">=", ">=": "<=", "=": "="}[t[1]], t[0]]
            b = p.bounds.setdefault(t[0], [0.0, INF])
            v = _num(t[2])
            if t[1] == ">=":
                b[0] = v
            elif t[1] == "<=":
                b[1] = v
            else:
                b[0] = b[1] = v
        else:
            raise common.MachineryError("bound line: " + s)
    p.bounds.pop("ONE_VAR_CONSTANT", None)
    p.bounds.pop("Constant", None)
    for s in chunks["int"] + chunks["bin"]:
        p.integer.update(s.split())
    for s in chunks["bin"]:
        for v in s.split():
            lo, hi = p.bounds.get(v, [0.0, 1.0])
            p.bounds[v] = [max(lo, 0.0), min(hi, 1.0)]
    # the variable fixed to one that carries a constant objective
    p.rows = {k: r for k, r in p.rows.items() if not k.endswith("ONE_VAR_CONSTANT")}
    for k, (terms, sense, rhs) in p.rows.items():
        if "ONE_VAR_CONSTANT" in terms:
            p.rows[k] = ({v: c for v, c in terms.items() if v != "ONE_VAR_CONSTANT"}, sense, rhs - terms["ONE_VAR_CONSTANT"])
    for v in p.vars():
        p.bounds.setdefault(v, [0.0, INF])
    if not pyomo:
        p.obj = {k: c for k, c in p.obj.items() if c != 0}
    return p


@contextlib.contextmanager
def objective_for_pyomo(backend):
    """Pyomo's writer cannot write a problem that has no active objective."""
    import pyomo.kernel as pmo

    block = backend._instance
    if not isinstance(block, pmo.block) or any(o.active for o in block.components(ctype=pmo.objective(0).ctype)):
        yield
        return
    block.vp_none = pmo.objective(0)
    try:
        yield
    finally:
        del block.vp_none


def read(backend, d: Path, name="p.lp") -> Problem:
    backend.verbose_strings()
    f = Path(d) / name
    with objective_for_pyomo(backend):
        backend.to_lp(str(f))
    text = f.read_text()
    f.unlink()
    return parse(text)


def var_id(tok):
    _, comp, coords = split_name(tok)
    return "/".join((comp, *coords))


def canonical(p: Problem, scale=1000):
    """JSON form with `component/coord/..` ids; numbers scaled to integers; rows normalised so that
    '>=' rows become '<=' rows (both sides negated)."""

    def n(x):
        if math.isinf(x) or abs(x) > 2e9 / scale:
            return 10**9 * 2 if x > 0 else -(10**9) * 2
        return round(x * scale)

    def t(terms):
        acc: dict = {}
        for v, c in terms.items():
            acc[var_id(v)] = acc.get(var_id(v), 0.0) + c
        return sorted([v, n(c)] for v, c in acc.items() if abs(c) > 1e-12)

    rows = []
    for name, (terms, sense, rhs) in p.rows.items():
        if sense == ">=":
            terms, sense, rhs = {v: -c for v, c in terms.items()}, "<=", -rhs
        rows.append({"id": var_id(name), "terms": t(terms), "sense": sense, "rhs": n(rhs)})
    rows.sort(key=lambda r: r["id"])
    return {
        "sense": p.sense, "obj": t(p.obj), "const": n(p.const), "rows": rows,
        "vars": sorted([var_id(v), n(b[0]), n(b[1]), "int" if v in p.integer else "real"] for v, b in p.bounds.items()),
    }

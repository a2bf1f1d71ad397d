"""P14 (spec/Sem.tla, Math.tla)."""

from harness import mathrun


def run(check):
    mathrun.run(check, "where", 100, 1500)

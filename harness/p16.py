"""P16 (spec/Sem.tla, Math.tla)."""

from harness import mathrun


def run(check):
    mathrun.run(check, "helper", 180, 1500)

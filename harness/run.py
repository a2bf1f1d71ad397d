"""Entry point: python -m harness.run P01 [--tier quick|thorough]"""

import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    from harness import common

    try:
        mod = importlib.import_module(f"harness.{prop.lower()}")
        check = common.Check(prop)
        common.quiet()
        mod.run(check)
        rc = check.finish()
    except Exception:
        traceback.print_exc()
        common.cleanup()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()

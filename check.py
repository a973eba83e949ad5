#!/usr/bin/env python
"""Entry point: check.py PROPERTY [--tier quick|thorough] | --replay FILE | --selftest."""

import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import core, registry  # noqa: E402


def main(argv):
    if argv[0] == "--selftest":
        return registry.selftest()
    if argv[0] == "--replay":
        return registry.replay(argv[1])
    pid = argv[0]
    if "--tier" in argv:
        os.environ["VERIF_TIER"] = argv[argv.index("--tier") + 1]
    return core.guarded(pid, registry.load(pid))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

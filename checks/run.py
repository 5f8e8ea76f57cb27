#!/usr/bin/env python3
"""run.py <property>: decide one property on the working tree of /repo.
Everything is built from there; VERIF_TIER and VERIF_SEED are respected."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
sys.dont_write_bytecode = True

import registry
import vh


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in registry.CHECKS:
        print("usage: run.py " + "|".join(sorted(registry.CHECKS)), file=sys.stderr)
        sys.exit(2)
    pid = sys.argv[1]
    parts = registry.CHECKS[pid]["parts"]

    def fn(ck):
        vh.build()
        vh.build_shim()
        ck.assumptions += registry.CHECKS[pid].get("assumptions", [])
        for mod, name in parts:
            getattr(importlib.import_module(mod), name)(ck)
            if ck.violations:
                return
    vh.main(pid, fn)


if __name__ == "__main__":
    main()

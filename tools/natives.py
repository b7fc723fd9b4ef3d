#!/usr/bin/env python3
"""Validates the native operators (tools/java): TLC must produce the same behaviours with and without them."""
import json
import os
import shutil
import sys
import tempfile

import props
import vlib

scratch = tempfile.mkdtemp()
bad = 0
try:
    for pid in sorted(props.PROPS):
        if len(sys.argv) > 1 and pid not in sys.argv[1:]:
            continue
        for run in props.PROPS[pid]["runs"]("quick", 7):
            c = run.get("constants", {})
            if "SeedHi" not in c or run.get("harness") is None:
                continue
            c = dict(c, SeedHi=c["SeedLo"] + 24)
            out = []
            for plain in ("", "1"):
                os.environ.pop("VERIF_PLAIN_TLA", None)
                if plain:
                    os.environ["VERIF_PLAIN_TLA"] = plain
                d = tempfile.mkdtemp(dir=scratch)
                cases, st = vlib.run_tlc(run["module"], c, run["invariants"], d, "x", timeout=3000)
                out.append(sorted(json.dumps(x, sort_keys=True) for x in cases))
            same = out[0] == out[1]
            bad += not same
            print(pid, run["label"], len(out[0]), "same" if same else "DIFFERENT", flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(bad != 0)

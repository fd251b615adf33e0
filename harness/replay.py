#!/usr/bin/env python3
"""replay.py FILE: runs a recorded history again on /repo's current code and
shows what the specification says about its calls."""
import json
import os
import sys
import tempfile
import shutil

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

rec = json.load(open(sys.argv[1]))
scratch = tempfile.mkdtemp(prefix="replay")
try:
    core.build_classes()
    eps = core.execute([{"ev": rec["history"]}], scratch, "r")
    v, _, _, ex = core.judge(eps, scratch, "r", explain=True)
    rc = 0
    for j, e in enumerate(eps[0]["ev"]):
        st, cl = v[(0, j)]
        print("%-14s %-4s must %-14s %s" % (e["op"], e["id"], {"ok": "answer", "err": "fail", "any": "-", "may": "answer or fail"}[st], "REJECTED: " + ", ".join(cl) if cl else "allowed"))
        if cl:
            rc = 1
            print("  call:    ", json.dumps({k: e[k] for k in ("a", "x", "y", "ax", "rx") if k in e}))
            print("  observed:", json.dumps(e["out"]))
            print("  expected:", json.dumps(ex.get((0, j))))
    sys.exit(rc)
finally:
    shutil.rmtree(scratch, ignore_errors=True)

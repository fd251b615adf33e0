#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {
    "C19": "TLC explores the complete state graph of small worlds of shared objects and checks layer results against padder state; every transition it finds and every ordered pair of calls is executed on the real code and each result is judged by TLC against the specification's own heap.",
    "C28": "TLC judges each recorded draw: block, shape, reproducibility, and that every position occurs within 40 draws per position.",
    "C29": "TLC judges recorded draws exactly where the property is exact (zero sigma, scaling, counts, reproducibility) and by 7- to 12-sigma bounds where it is about moments; fixed generator seeds make the verdict deterministic.",
    "C36": "The sandbox has no accelerator: the real code runs on a simulated second device of PyTorch (device 'accel:0', harness/accel.py) that refuses to mix devices as a real one does; TLC judges device and values of every result.",
    "C30": "The specification's gradient is the central difference of its own exact operator with a step of 2^-30 (exact for linear operations; kinks show as different one-sided slopes and are left open); TLC compares every component of the back-propagated cotangent.",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in NA:
        continue
    c = "python3 harness/run.py " + p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": c, "thorough_cmd": c, "technique": "TLA+ specification; TLC validates traces recorded from the real code, generated by and for the specification",
        "level": "model_checking",
        "level_note": NOTE.get(p["id"], "Every generated public-call history is executed on the real code and each result is judged by TLC against the executable TLA+ specification (exact rationals).")
        + " Holds for the histories explored (bounded sizes); trusts TLC and the arbitrary-precision override of the specification's arithmetic."})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every observation is the result of a public call. VERIF_TIER=thorough multiplies the generated histories and widens the exhaustive models."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

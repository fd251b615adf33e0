#!/usr/bin/env python3
"""Decides one property: run.py Cxx.

Generates call histories for the property, executes them on /repo's code, and
has TLC replay every one of them through the specification.  Exit 0: every
observed result is one the specification allows.  Exit 1: VIOLATION line.
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import core
import defaults
import gens
import history
import models
import variants

gens.GENS["C19"] = history.C19
THOROUGH = {"C11": 6, "C15": 6, "C17": 5, "C19": 3, "C21": 5, "C22": 5, "C24": 6, "C25": 6, "C31": 3, "C32": 5, "C35": 6}
BROKEN = {"raised", "accepted", "timeout", "crash", "malformed result"}
# Clauses that belong to the property (default: all of them).
ONLY = {
    "C01": BROKEN | {"interior", "shape", "dtype", "mutated", "count"},
    "C30": BROKEN | {"gradient", "no gradient", "grad mode", "shape", "count"},
    "C31": BROKEN,
}
RAND = {"crop", "gauss", "poisson"}


def key_of(episode, j):
    """Digest of the calls that lead to the rejected one (no results)."""
    evs = [{k: v for k, v in e.items() if k != "out"} for e in episode["ev"][:j + 1]]
    return hashlib.sha256(json.dumps(evs, sort_keys=True).encode()).hexdigest()[:16]


def known(pid):
    out = {}
    with open(os.path.join(core.ROOT, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("event="):
                out[w[2][6:]] = w[3].strip()
    return out


def spoil(e, how):
    """A corrupted copy of an executed call, or None."""
    o = json.loads(json.dumps(e["out"]))
    if not o["ok"]:
        if how != "flip" or o["err"] not in ("ValueError", "AssertionError", "IndexError"):
            return None
        o.update(ok=True, err="")
        return dict(e, out=o)
    if how == "flip":
        if e["op"] in RAND:
            return None
        o.update(ok=False, err="RuntimeError", ts=[], tr=[], g=[])
        return dict(e, out=o)
    if how == "grad" and e["op"] in ("pool", "conv1", "component", "outer", "spow", "bconv") and o["g"] and e["ct"] and o["ts"] and e["ct"][0]["s"] == o["ts"][0]["s"]:
        o["g"] = [10 ** 6 + 7] * len(o["g"])      # all: some may be unspecified
        return dict(e, out=o)
    if how == "device" and o["ts"] and e.get("dv"):
        o["ts"][-1]["dv"] = ""
        return dict(e, out=o)
    if how == "shape" and o["ts"]:
        o["ts"][0]["s"] = o["ts"][0]["s"] + [1]
        return dict(e, out=o)
    if how == "value" and o["ts"] and o["ts"][0]["d"] and e["op"] not in RAND | {"magnitude", "unsharp", "spow", "loss"}:
        o["ts"][0]["d"][len(o["ts"][0]["d"]) // 2] = 10 ** 6 + 7
        return dict(e, out=o)
    if how == "value" and not o["ts"] and o["tr"]:
        o["tr"] = [{"k": "u", "c": [o["tr"][0], {"k": "n", "v": 0}]}]
        return dict(e, out=o)
    return None


MADE = {"Padder", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "to_same", "covn", "conv_nd", "crop"}
WEIGHTED = {"BayerConv2d", "bconv", "demosaic", "spow", "poly"}      # weights, and Python numbers with integer tensors, have the default type


def canaries(seed, pid):
    """Executed histories with one corrupted result each: TLC must reject them."""
    def extra(part, k):
        out = []
        rng = build.Gen("canary-%d-%s-%d" % (seed, pid, k))
        for how in ("value", "shape", "flip", "grad", "device")[:5 if pid == "C36" else 4]:
            if how == "value" and pid == "C01":
                how = "shape"
            for _ in range(40):
                p = rng.choice(part)
                j = rng.randrange(len(p["ev"]))
                if j > 30 or any(e["out"]["err"] in ("skipped", "timeout", "unsupported") for e in p["ev"][:j + 1]):
                    continue
                c = spoil(p["ev"][j], how)
                if c:
                    out.append({"ev": p["ev"][:j] + [c]})
                    what[(k, len(out) - 1)] = (how, c)
                    break
        lens[k] = [len(p["ev"]) for p in out]
        return out
    lens, what = {}, {}
    return extra, lens, what


def sample(e):
    d = {k: e[k] for k in ("op", "id", "a", "ax") if k in e}
    if e["x"]["dt"]:
        d["x"] = {"shape": e["x"]["s"], "dtype": e["x"]["dt"], "values": e["x"]["d"][:6]}
    o = e["out"]
    d["observed"] = [{"shape": t["s"], "values": t["d"][:6]} for t in o["ts"][:1]] or o["tr"] or o["err"]
    return json.loads(json.dumps(d)[:1500]) if len(json.dumps(d)) <= 1500 else {"op": e["op"], "x": d.get("x"), "observed": str(d["observed"])[:300]}


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return check(pid, seed, tier, t0, scratch)
    except core.Machinery as ex:
        print("ERROR of the check itself (no verdict): %s" % ex)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def histories(pid, g, k, model):
    eps = gens.GENS[pid](g, k)
    eps += models.stimuli(model, g, k)
    if pid not in ("C19", "C36"):
        eps += variants.make(g, eps, len(eps) // 6)
    for p in eps:
        for e in p["ev"]:
            if e["op"] in defaults.DEFAULTS and "omit" not in e.get("r", {}) and g.chance(.5):
                e["r"] = dict(e.get("r", {}), short=1)
    if pid != "C36":
        for p in eps:
            surround(g, p)
    g.shuffle(eps)
    return eps


def numbers(t, g):
    if isinstance(t, dict):
        if t.get("k") == "i" and g.chance(.7):
            t["np"] = 1
        for v in t.values():
            numbers(v, g)
    elif isinstance(t, list):
        for v in t:
            numbers(v, g)


def surround(g, p):
    """Settings around the calls, and copies of the objects between them, that
    must make no difference."""
    for e in p["ev"]:
        if any(e[k]["k"] == "seq" for k in ("ax", "rx")) and g.chance(.15):
            e["r"] = dict(e.get("r") or {}, axt=g.choice(["np", "npi", "range"]))
        z = e["x"]["s"]
        if len(z) > 1 and z == z[::-1] and e["x"].get("lay") == "c" and g.chance(.5):
            e["x"]["lay"] = "t"             # the same shape read forwards and backwards
        if e["op"] in MADE and g.chance(.1):
            numbers(e["a"], g)
    c = g.random()
    if c < .15:
        amb = g.choice(["f8", "f8", "f2", "inference", "grad"])
        if amb in ("f8", "f2") and any(e["op"] in WEIGHTED for e in p["ev"]):
            amb = "inference"
        if amb == "inference" and any(e["ct"] for e in p["ev"]):
            amb = "grad"                    # no gradient through tensors made in inference mode
        if amb == "f2" and any(e[k]["dt"] and e[k]["dt"][0] != "f" for e in p["ev"] for k in ("x", "y")):
            amb = "f8"                      # whole numbers become the default type: float16 may not hold them
        for e in p["ev"]:
            e["r"] = dict(e.get("r") or {}, amb=amb)
    elif c < .3:
        for e in p["ev"]:
            if e["x"]["dt"] and e["id"] and not e["ct"] and g.chance(.5):
                e["r"] = dict(e.get("r") or {}, reborn=g.choice(["deep", "pickle"]))


def check(pid, seed, tier, t0, scratch):
    core.build_classes()
    g = build.Gen("%d-%s" % (seed, pid))
    model = models.start(pid, tier, seed, scratch)      # exhaustive model(s) of this property, run beside the rest
    k = THOROUGH.get(pid, 8) if tier == "thorough" else 1
    eps = histories(pid, g, k, model)
    extra, lens, what = canaries(seed, pid)
    verdicts, states, trans = core.run_all(eps, scratch, extra=extra)
    mstates, mtrans, mnotes = models.finish(model)

    # corrupted results must have been rejected
    tried, caught, missed = 0, 0, []
    for s, ns in lens.items():
        for i, n in enumerate(ns):
            st, cl = verdicts.pop(("x", s, i, n - 1))
            for j in range(n - 1):
                verdicts.pop(("x", s, i, j))
            if st != "any" or cl:
                tried += 1
                caught += bool(cl)
                missed += [] if cl else [what[(s, i)]]
    bad = sorted((ij, v) for ij, v in verdicts.items() if v[1] and (pid not in ONLY or ONLY[pid] & set(v[1])))
    if missed and not bad:      # a few may fall on something the specification leaves open
        print("NOTE: %d of %d corrupted results were accepted: %s" % (tried - caught, tried, json.dumps(missed[0])[:1500]), file=sys.stderr)
    if not bad and tried - caught > tried // 6:
        raise core.Machinery("%d of %d corrupted results were accepted: %s" % (tried - caught, tried, json.dumps(missed[0])[:1500]))
    if not bad and tried == 0:
        raise core.Machinery("no corrupted result could be judged")
    kn = known(pid)
    new = []
    for (i, j), v in bad:
        d = key_of(eps[i], j)
        if d in kn:
            print("KNOWN-FINDING: property=%s %s (event %s)" % (pid, kn[d], d))
        else:
            new.append((i, j, v, d))
    skipped = sum(e["out"]["err"] == "skipped" for p in eps for e in p["ev"])
    if skipped and not new:
        raise core.Machinery("%d calls were not executed within the time limit" % skipped)

    status = {}
    ops = {}
    for (i, j), v in verdicts.items():
        status[v[0]] = status.get(v[0], 0) + 1
        o = eps[i]["ev"][j]["op"]
        ops[o] = ops.get(o, 0) + 1
    dig = {key_of(p, len(p["ev"]) - 1) for p in eps}
    pick = [p for p in eps if len(json.dumps(p["ev"][-1])) < 3000][:3]
    cov = {"states": states + mstates, "transitions": trans + mtrans, "traces_validated_against_impl": len(eps),
           "distinct_traces": len(dig), "calls_validated": len(verdicts), "calls_by_operation": ops,
           "calls_specified_ok": status.get("ok", 0), "calls_specified_error": status.get("err", 0),
           "calls_with_predicate_or_unspecified": status.get("any", 0) + status.get("may", 0),
           "corrupted_results_rejected": caught, "corrupted_results_tried": tried,
           "histories_not_judged": len(core.UNJUDGED),
           "gradients_checked": sum(bool(e["ct"]) for p in eps for e in p["ev"]),
           "samples": [[sample(e) for e in p["ev"]][:6] for p in pick]}
    if mnotes:
        cov["models"] = mnotes
    if pid == "C19":
        cov.update(history.STATS)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["floating-point results are compared with the exact rational specification within a tolerance of 1e-9 (double) or 5e-5 (single) of the data's magnitude",
                          "TLC and the arbitrary-precision override of the rational arithmetic (spec/java/Rat.java) are trusted"],
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        out = os.path.join(core.ROOT, "out", pid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        new.sort(key=lambda b: len(json.dumps(eps[b[0]]["ev"][:b[1] + 1])))
        for n, (i, j, v, d) in enumerate(new[:5]):
            path = os.path.join(out, "%d.json" % n)
            with open(path, "w") as f:
                json.dump({"property": pid, "event": d, "expected": v[0], "broken": v[1], "history": eps[i]["ev"][:j + 1]}, f, indent=1)
            e = eps[i]["ev"][j]
            print("rejected: %s%s  clauses: %s  observed: %s" % (e["op"], " on " + e["id"] if e["id"] else "", ", ".join(v[1]),
                                                                 e["out"].get("msg") or e["out"]["err"] or "a result"))
        print("%d of %d calls rejected (event %s)" % (len(new), len(verdicts), new[0][3]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(out, "0.json")))
        return 1
    print("%s: %d histories, %d calls, %d states: all allowed by the specification (%.0f s)" % (pid, len(eps), len(verdicts), states + mstates, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())

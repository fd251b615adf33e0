"""Executes episodes on the real code and has TLC judge the results."""
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
CLASSES = os.path.join(ROOT, "build")


class Machinery(Exception):
    pass


def build_classes():
    src = os.path.join(ROOT, "spec/java/Rat.java")
    stamp = os.path.join(CLASSES, ".stamp")
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JAR, "-d", CLASSES, src], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac: " + r.stderr[-2000:])
    open(stamp, "w").close()


def tlc(module, cfg, scratch, env=None, workers=1, heap="1500m", opts=(), timeout=850):
    """Run TLC; returns its standard output."""
    meta = os.path.join(scratch, "md")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + os.path.join(ROOT, "spec"),
           "-cp", ":".join([CLASSES, JAR, DEPS]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", os.path.join(ROOT, "spec", cfg), *opts, os.path.join(ROOT, "spec", module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=scratch, timeout=timeout)
    return r.stdout + r.stderr


V = re.compile(r'<<"V",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*<<(.*?)>>\s*>>', re.S)
E = re.compile(r'<<\s*"E",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def execute(episodes, scratch, name):
    """Run the episodes on /repo's code; fills e["out"].  A process that dies
    marks the episode it was in and the rest goes on in a new process."""
    src = os.path.join(scratch, name + ".in.json")
    dst = os.path.join(scratch, name + ".out.ndjson")
    with open(src, "w") as f:
        json.dump(episodes, f)
    open(dst, "w").close()
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONHASHSEED="0")
    start, died = 0, 0
    while start < len(episodes):
        r = subprocess.run([PY, "-B", os.path.join(ROOT, "harness/execute.py"), src, dst, str(start)],
                           capture_output=True, text=True, env=env, cwd=scratch)
        done = 0
        with open(dst) as f:
            lines = [json.loads(l) for l in f if l.endswith("\n")]
        for rec in lines:
            for e, o in zip(episodes[rec["i"]]["ev"], rec["out"]):
                e["out"] = o
            done = rec["i"] + 1
        if done == len(episodes):      # whatever the process does on its way out
            break
        if done == start and not lines and "Traceback" in r.stderr and "run_event" not in r.stderr:
            raise Machinery("executor: " + r.stderr[-2000:])
        died += 1
        if died > 20:
            raise Machinery("executor keeps dying: " + r.stderr[-2000:])
        dead = {"ok": False, "err": "crash", "msg": r.stderr[-200:], "ts": [], "tr": [], "mut": False, "g": [], "gd": False}
        for e in episodes[done]["ev"]:
            e["out"] = dict(dead)
        start = done + 1
    return episodes


SPEC_FIELDS = ("op", "id", "a", "x", "y", "ax", "rx", "ct", "dt", "out")
OUT_FIELDS = ("ok", "err", "ts", "tr", "mut", "g", "gd")


def for_tlc(episodes):
    r = []
    for p in episodes:
        evs = []
        for e in p["ev"]:
            d = {k: e[k] for k in SPEC_FIELDS}
            d["dv"] = e.get("dv", "")
            d["x"] = {k: e["x"][k] for k in ("s", "d", "dt")}
            d["y"] = {k: e["y"][k] for k in ("s", "d", "dt")}
            d["ct"] = [{k: c[k] for k in ("s", "d")} for c in e["ct"]]
            d["out"] = {k: e["out"][k] for k in OUT_FIELDS}
            evs.append(d)
        r.append({"ev": evs})
    return r


UNJUDGED = []


def judge(episodes, scratch, name, explain=False, timeout=800):
    """As judge_once; an observed result so malformed that TLC cannot even
    compare it with the expected one is itself a rejection.  A history (at most
    two) the specification has no value for, whatever is observed, is left out
    and reported."""
    odd, out = {}, []
    episodes = list(episodes)
    for attempt in range(8):
        live = [i for i in range(len(episodes)) if i not in out]
        try:
            w, s, t, x = judge_once([episodes[i] for i in live], scratch, name, explain, timeout=timeout)
        except Machinery as ex:
            bad = getattr(ex, "first", None)
            if bad is None or attempt == 7:
                raise
            i, j = live[bad[0]], bad[1]
            if (i, j) in odd:
                if len(out) == 2:
                    raise
                out.append(i)
                print("NOTE: not judged: %s" % str(ex)[-1500:], file=sys.stderr)
                UNJUDGED.append((name, i))
                continue
            odd[i, j] = 1
            evs = list(episodes[i]["ev"])
            evs[j] = dict(evs[j], out=neutral(evs[j]["out"]))
            episodes[i] = {"ev": evs}
            continue
        v = {(live[i], j): q for (i, j), q in w.items()}
        for k in odd:
            if k[0] not in out:
                v[k] = (v[k][0], ["malformed result"])
        for i in out:
            v.update({(i, j): ("any", []) for j in range(len(episodes[i]["ev"]))})
        return v, s, t, {(live[i], j): q for (i, j), q in x.items()}


def neutral(out):
    return {"ok": False, "err": "malformed", "ts": [], "tr": [], "mut": False, "g": [], "gd": False}


def judge_once(episodes, scratch, name, explain=False, workers=1, timeout=800):
    """TLC replays the episodes through the specification.  Returns
    (verdicts, states, transitions): verdicts[(i, j)] = (status, [clauses])."""
    path = os.path.join(scratch, name + ".episodes.json")
    with open(path, "w") as f:
        json.dump(for_tlc(episodes), f)
    env = {"EPISODES": path}
    if explain:
        env["EXPLAIN"] = "1"
    sc = os.path.join(scratch, name + ".tlc")
    os.makedirs(sc, exist_ok=True)
    out = tlc("Trace", "Trace.cfg", sc, env=env, workers=workers, timeout=timeout)
    verdicts = {}
    for m in V.finditer(out):
        cl = re.findall(r'"([^"]*)"', m.group(4))
        verdicts[(int(m.group(1)) - 1, int(m.group(2)) - 1)] = (m.group(3), cl)
    expect = sum(len(p["ev"]) for p in episodes)
    st = STATES.findall(out)
    states = expect + len(episodes)
    bad = None
    if "No error has been found" not in out:
        bad = "TLC reports an error"
    elif len(verdicts) != expect:
        bad = "%d verdicts for %d calls" % (len(verdicts), expect)
    elif not st or int(st[-1][1]) != states:
        bad = "%s distinct states instead of %d" % (st[-1:] and st[-1][1], states)
    if bad:
        keep = os.path.join(scratch, name + ".tlc.log")
        with open(keep, "w") as f:
            f.write(out)
        err = out[out.find("Error:"):][:1500] if "Error:" in out else out[-1500:]
        missing = [(i, j) for i, p in enumerate(episodes) for j in range(len(p["ev"])) if (i, j) not in verdicts]
        # breadth first: the call TLC was at when it stopped is the first unjudged one at the smallest position
        missing.sort(key=lambda m: (m[1], m[0]))
        ex = Machinery("%s: %s\n%s\nfirst unjudged: %s" % (name, bad, err, [(m, episodes[m[0]]["ev"][m[1]]) for m in missing[:1]]))
        ex.first = missing[0] if missing else None
        raise ex
    expl = {}
    if explain:
        for m in E.finditer(out):
            try:
                expl[(int(m.group(1)) - 1, int(m.group(2)) - 1)] = json.loads(json.loads('"' + m.group(3) + '"'))
            except ValueError:
                pass
    return verdicts, states, expect, expl


def run_all(episodes, scratch, shards=8, extra=None):
    """Execute and judge in parallel.  Returns (verdicts, states, transitions).
    extra(part) may return further executed episodes for TLC to judge (their
    verdicts are kept under indices ("x", shard, i))."""
    build_classes()
    n = max(1, min(shards, len(episodes)))
    groups = [list(range(i, len(episodes), n)) for i in range(n)]
    res, errs, more_of = [None] * n, [], {}

    def work(k):
        try:
            t0 = time.time()
            part = [episodes[i] for i in groups[k]]
            execute(part, scratch, "s%d" % k)
            t1 = time.time()
            more = extra(part, k) if extra else []
            more_of[k] = len(part)
            res[k] = judge(part + more, scratch, "s%d" % k)
            if os.environ.get("VERIF_TIME"):
                print("shard", k, "exec %.1f judge %.1f" % (t1 - t0, time.time() - t1), file=sys.stderr)
        except Exception as ex:  # reported by the caller
            errs.append(ex)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0] if isinstance(errs[0], Machinery) else Machinery(repr(errs[0]))
    verdicts, states, trans = {}, 0, 0
    for k in range(n):
        v, s, t, _ = res[k]
        states += s
        trans += t
        for (i, j), val in v.items():
            if i < more_of[k]:
                verdicts[(groups[k][i], j)] = val
            else:
                verdicts[("x", k, i - more_of[k], j)] = val
    return verdicts, states, trans

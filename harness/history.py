"""Call histories (C19).  Random worlds of objects sharing padders and blur
layers; TLC explores each world's state graph (MC_History), and the histories
made here take every transition it found on the real code, plus walks through
all ordered pairs of calls."""
import json
import os
import re
import shutil
import tempfile
import threading

import core
from build import *
import gens
import variants
from gens import PADARGS, avg, img, pool_layer, ssim_blur

T = re.compile(r'<<"T",\s*(\d+),\s*<<([\d,\s]*)>>,\s*(\d+),\s*(\d)>>')


def world(g):
    new, calls = [], []
    multi = g.chance(.25)         # a padder with a mode per axis, for two axes
    modes = [m for m in PADARGS if m != "linear_ramp"]
    mode = [g.choice(modes), g.choice(modes)] if multi else g.choice(modes)
    pair = lambda: (g.randint(-3, 3), g.randint(-3, 3))
    new.append(padder("P", g.choice([0, (1, 2), [(1, 0), (2, 1)], 2]), mode, pair(), pair(), g.choice([None, (1, 2), (2, None)])))
    s1, s2 = [g.randint(3, 5), g.randint(3, 5)], [g.randint(4, 6), g.randint(3, 4)]
    s3 = [g.randint(1, 2), g.randint(3, 4), g.randint(3, 5)]
    im = lambda s, dt="f8": tens(s, [g.dy(5) for _ in range(prod(s))], dt, g.lay())
    X1, X4, X2, X3 = im(s1), im(s1), im(s2), im(s3, "f4")
    Y1 = im(s1, "f4")
    two = lambda: g.choice([SEQ(0, 1), SEQ(1, 0), SEQ(-1, -2), ALL, SEQ(-2, 1)])

    def use(op, id, x, ax=None, a=None, **kw):
        calls.append(ev(op, id, a or {"z": 0}, x=x, ax=ax or two(), dt=x["dt"], **kw))

    def layer(id, pad):
        c, ks, cls = pool_layer(g, id, 2, pad, hi=4)
        new.append(c)
        single = len(tree_kernels(c)) == 0
        use("pool", id, X1)
        use("pool", id, g.choice([X4, X4, Y1]))
        use("pool", id, X2)
        if g.chance(.6):       # another number of axes: fine, or an error that must leave no trace
            use("pool", id, X3, SEQ(*g.axlist(3, g.choice([1, 2, 2, 3]))))
        return single

    def tree_kernels(c):
        t = c["a"].get("kernel") or c["a"]["ks"]
        s = c["a"]["stride"]
        return [v for v in (t, s) if v["k"] in "lu" and not (c["op"] == "SeparablePoolNd" and v is t and v["c"] and v["c"][0]["k"] == "i")]

    layer("A", pref("P"))
    if g.chance(.7):
        layer("B", pref("P"))
    if g.chance(.5):
        new.append(avg(g, "N", g.choice([2, 3, [2, 3]]), g.choice([None, 1, 2]), False, g.choice([pstr("zeros"), NOPAD])))
        use("pool", "N", X1)
        use("pool", "N", X2)
    use("pad", "P", X1)
    use("pad", "P", X2)
    if g.chance(.5):
        use("pad", "P", X3, SEQ(*g.axlist(3, 2)))
    use("pad_axis", "P", X1, a={"i": g.choice([0, -1, 1]), "axis": g.choice([0, 1, -1, -2])})
    ks = g.randint(1, 4)
    calls.append(ev("to_same", "P", {"ks": tree(ks), "st": tree(1), "sz": NONE}, r={"omit": ["st", "sz"]}))
    if g.chance(.5):
        calls.append(ev("to_same", "P", {"ks": tree([g.randint(1, 4), g.randint(1, 4)]), "st": tree(g.randint(1, 3)), "sz": tree(s1)}))
    what = g.choice(["unsharp", "ssim", "both", "edge", "conv"])
    if what in ("unsharp", "both"):
        new.append(ev("GaussianPoolNd", "G", {"ks": tree(g.choice([3, [3, 2]])), "sigma": tree(1), "order": tree(0), "stride": tree(g.choice([None, 2])), "pad": NOPAD}))
        new.append(ev("UnsharpMask", "U", {"blur": "G", "amount": q(g.choice([1, 2, Fr(1, 2)])), "threshold": q(0), "pad": g.choice([pref("P"), pstr("reflect")])}))
        for x in (X1, g.choice([X4, X2])):
            use("unsharp", "U", x, a={"slack": 0})
        use("pool", "G", X2)
    if what in ("ssim", "both"):
        if what == "ssim":
            new.append(avg(g, "G", g.choice([2, 3]), None, True, NOPAD))
        pd = NOPAD if what == "both" else g.choice([NOPAD, pref("P"), pstr("reflect")])
        new.append(ev("SSIM", "S", {"blur": {"k": "ref", "v": "G"}, "pad": pd, "K1": "1/16", "K2": "1/4", "sample": g.chance(.5), "crop": g.chance(.7)}))
        for x, y in ((X1, X4), (X2, im(s2))):
            calls.append(ev("ssim", "S", {"full": g.chance(.5)}, x=x, y=y, ax=two(), rx=ALL, dt=x["dt"]))
        if what == "ssim":
            use("pool", "G", X1)
    if what == "edge":
        new.append(ev("EdgeFilter", "E", {"edge": tree([-1, 0, 1]), "smooth": tree([1, 2, 1]), "norm": g.chance(.5), "pad": pref("P")}))
        use("component", "E", X1, INT(0), a={"ea": 1})
        use("component", "E", X2, SEQ(0, 1), a={"ea": -2})
        use("all_components", "E", X4)
        use("horizontal", "E", X3)
    if what == "conv":
        calls.append(ev("to_filter", "A", {"pad": g.choice([NOPAD, pstr(g.choice(PADARGS)), pref("P")])}))
    if g.chance(.3):
        new.append(ev(g.choice(["MSE"]), "M", {"red": g.choice(["mean", "sum", "none"])}))
        calls.append(ev("metric", "M", x=X1, y=X4, ax=two(), dt="f8"))
    check = [c["op"] in ("pool", "component", "unsharp") and g.chance(.5) for c in calls]
    return {"new": new, "calls": calls, "check": check, "depth": 4}


def explore(worlds, scratch):
    """TLC visits the state graph of every world: transitions (world, history, call, changes state)."""
    core.build_classes()
    parts = [worlds[i::4] for i in range(4)]
    out = [None] * 4

    def work(i):
        try:
            sc = os.path.join(scratch, "w%d" % i)
            os.makedirs(sc)
            path = os.path.join(sc, "worlds.json")
            strip = lambda es: [{k: e[k] for k in ("op", "id", "a", "x", "y", "ax", "rx", "ct", "dt")} for e in es]
            with open(path, "w") as f:
                json.dump([dict(w, new=strip(w["new"]), calls=strip(w["calls"])) for w in parts[i]], f)
            out[i] = core.tlc("MC_History", "MC_History.cfg", sc, env={"WORLDS": path})
        except Exception as ex:
            out[i] = repr(ex)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(4) if parts[i]]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res, states, trans = [], 0, 0
    for i in range(4):
        if not parts[i]:
            continue
        if "No error has been found" not in out[i]:
            raise core.Machinery("MC_History: " + out[i][max(0, out[i].find("Error:")):][:2500])
        st = core.STATES.findall(out[i])[-1]
        trans += int(st[0])
        states += int(st[1])
        for m in T.finditer(out[i]):
            hist = [int(v) - 1 for v in m.group(2).replace(",", " ").split()]
            res.append((4 * (int(m.group(1)) - 1) + i, hist, int(m.group(3)) - 1, int(m.group(4))))
    return res, states, trans


STATS = {}


def C19(g, k):
    worlds = [world(g) for _ in range(12 * k)]
    scratch = tempfile.mkdtemp(prefix="hist")
    try:
        trans, states, n = explore(worlds, scratch)
    finally:
        shutil.rmtree(scratch)
    STATS.update(model_states=states, model_transitions=n)
    eps = []
    by = {}
    for w, hist, c, moves in trans:
        by.setdefault((w, tuple(hist)), ([], []))[moves].append(c)
    for (w, hist), (stay, move) in by.items():
        W = worlds[w]
        pre = W["new"] + [W["calls"][c] for c in hist]
        if k == 1 and len(hist) > 1 and g.chance(.8):
            stay, move = stay[:2], move[:1]
        g.shuffle(stay)
        if stay:
            eps.append(ep(clone(pre + [W["calls"][c] for c in stay])))
        for c in move:
            eps.append(ep(clone(pre + [W["calls"][c], W["calls"][g.choice(stay + move)]])))
    for W in worlds:           # every ordered pair of calls
        n = len(W["calls"])
        pairs = [(a, b) for a in range(n) for b in range(n)]
        g.shuffle(pairs)
        walk = []
        left = set(pairs)
        cur = g.randrange(n)
        while left:
            nxt = next((b for b in g.sample(range(n), n) if (cur, b) in left), None)
            if nxt is None:
                a, b = g.choice(sorted(left))
                walk += [a, b]
                left.discard((a, b))
                cur = b
            else:
                left.discard((cur, nxt))
                walk += [nxt] if walk else [cur, nxt]
                cur = nxt
        for i in range(0, len(walk), 30):
            evs = []
            for c in walk[max(0, i - 1):i + 30]:
                e = W["calls"][c]
                evs.append(variants.shuffled(g, e) if e["x"]["dt"] and g.chance(.4) else e)
                if g.chance(.05):      # another object like one of those in use, made meanwhile
                    o = g.choice([o for o in W["new"] if o["op"] != "Padder"])
                    if not any(f["a"].get("blur") in (o["id"], {"k": "ref", "v": o["id"]}) for f in W["new"]):
                        evs.append(dict(o, id=o["id"] + "'"))
                        evs += [dict(f, id=f["id"] + "'") for f in W["calls"] if f["id"] == o["id"]][:1]
            eps.append(ep(clone(W["new"] + evs)))
    return eps + side_by_side(g, k)


MIX = {"C04": 3, "C06": 8, "C07": 6, "C09": 4, "C11": 6, "C12": 12, "C13": 12, "C14": 4, "C16": 6, "C17": 10, "C18": 8, "C20": 8, "C21": 8, "C22": 3, "C24": 6, "C25": 1,
       "C26": 3, "C27": 3, "C32": 4, "C33": 2}


def side_by_side(g, k):
    """Objects of every kind in one process: two histories of one property, interleaved."""
    eps = []
    for pid, n in MIX.items():
        pool = [p for p in gens.GENS[pid](g, 1) if len(json.dumps(p)) < 6000]
        for _ in range(n * k):
            p = g.choice(pool)
            like = [r for r in g.sample(pool, min(60, len(pool))) if r["ev"][0]["op"] == p["ev"][0]["op"]]
            eps.append(variants.mingle(g, p, g.choice(like or pool)))
            v = variants.again(g, g.choice(pool), 5)
            if v:
                eps.append(v)
    for _ in range(10 * k):         # metrics with the default blur and different padders
        n = g.randint(11, 13)
        kinds = [(g.choice(["gaussian", "gaussian", "mean"]), g.choice([NOPAD, NOPAD, pstr(g.choice(["reflect", "zeros", "circular"]))])) for _ in range(3)]
        evs = [ev("SSIM", "s%d" % i, {"blur": {"k": "name", "v": b}, "pad": p, "K1": "1/16", "K2": "1/4", "sample": g.chance(.5), "crop": False})
               for i, (b, p) in enumerate(kinds)]
        x, y = img(g, [n]), img(g, [n])
        for _ in range(5):
            i = g.randrange(3)
            evs.insert(g.randint(i + 1, len(evs)), ev("ssim", "s%d" % i, {"full": g.chance(.7)}, x=x, y=y, ax=g.choice([ALL, INT(0)]), rx=ALL, dt="f8"))
        eps.append(ep(evs))
    return eps


def clone(evs):
    return [dict(e) for e in evs]

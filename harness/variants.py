"""Histories made from other histories: the same calls on inputs with extra
axes, other element types or other magnitudes.  The specification evaluates
whatever the calls are given, so any such change yields a valid history."""
import json
from fractions import Fraction as Fr

from build import INT, SEQ, prod, q

AXED = {"pad", "pool", "component", "all_components", "magnitude", "unsharp", "metric", "ssim", "ms_ssim", "crop"}
LAST2 = {"horizontal", "vertical"}
FREE = {"poly", "spow", "gauss", "poisson", "describe", "outer", "axes"}
LEAD = {"pad_axis": "axis", "conv1": "dim"}


def resolve(n, ax):
    """The listed axes, or None when the argument is not a plain valid one."""
    k = ax["k"]
    if k == "all":
        return list(range(n))
    if k == "slice":
        f = lambda v: v[0] if v else None
        try:
            return list(range(n))[f(ax["a"]):f(ax["b"]):f(ax["c"])]
        except ValueError:
            return None
    a = [ax["a"]] if k == "int" else list(ax["a"])
    if any(v < -n or v >= n for v in a):
        return None
    return a


def moved(n, a, p, m):
    """Axis a of rank n once m axes are put in before axis p."""
    v = a + n if a < 0 else a
    v = v + m if v >= p else v
    return v if a >= 0 else v - n - m


def uplift(g, e):
    """The call with one to three new axes of length one, or None."""
    n = len(e["x"]["s"])
    if not e["x"]["dt"] or n == 0 or e.get("r", {}).get("np") or e["x"].get("lay", "c")[0] == "r":
        return None
    op = e["op"]
    m, p = g.randint(1, 3), g.randint(0, n)
    e = json.loads(json.dumps(e))
    if op in LAST2:
        p = g.randint(0, max(0, n - 2))
    elif op in LEAD:
        a = e["a"][LEAD[op]]
        if a < -n or a >= n:
            return None
        e["a"][LEAD[op]] = moved(n, a, p, m)
    elif op in AXED:
        for key in ("ax", "rx") if op in ("ssim", "ms_ssim") else ("ax",):
            r = resolve(n, e[key])
            if r is None:
                return None
            e[key] = INT(moved(n, e[key]["a"], p, m)) if e[key]["k"] == "int" else SEQ(*[moved(n, a, p, m) for a in r])
        if "ea" in e["a"]:
            if not -n <= e["a"]["ea"] < n:
                return None
            e["a"]["ea"] = moved(n, e["a"]["ea"], p, m)
        e.get("r", {}).pop("noax", None)
    elif op not in FREE or op in ("outer", "axes"):
        return None
    grow = lambda t: t.update(s=t["s"][:p] + [1] * m + t["s"][p:], lay=t.get("lay", "c") if t.get("lay", "c")[0] != "e" else "c")
    grow(e["x"])
    if e["y"]["dt"] and op != "spow":
        if len(e["y"]["s"]) != n:
            return None
        grow(e["y"])
    for t in e["ct"]:
        if len(t["s"]) != n:
            return None
        grow(t)
    return e


KEEP = {"pad", "pool", "component", "all_components", "magnitude", "unsharp", "horizontal", "vertical", "pad_axis", "conv1"}


def tiled(g, e):
    """The call on a batch of many items, which repeat two or three different ones in turn."""
    op = e["op"]
    if not e["x"]["dt"] or e["ct"] or e.get("r", {}).get("special") or not e["x"]["s"] or prod(e["x"]["s"]) == 0:
        return None
    if op in ("poly", "b14", "b41", "rgb1", "rgb4", "down1", "down4", "bconv", "demosaic", "loss", "merge3"):
        e, p = json.loads(json.dumps(e)), 0
        if op != "poly" and len(e["x"]["s"]) < 4 or len(e["y"]["s"]) not in (0, len(e["x"]["s"])):
            return None
    elif op in KEEP or op in ("metric", "ssim", "ms_ssim"):
        for _ in range(6):
            e2 = uplift(g, e)
            if e2 is None:
                return None
            n, ax = len(e2["x"]["s"]), resolve(len(e2["x"]["s"]), e2["ax"])
            used = set()
            for key in ("ax", "rx") if op in ("ssim", "ms_ssim") else ("ax",):
                used |= {v % n for v in resolve(n, e2[key]) or range(n)} if op not in ("pad_axis", "conv1", "horizontal", "vertical") else set()
            if op in LEAD:
                used = {e2["a"][LEAD[op]] % n}
            if op in LAST2:
                used = {n - 2, n - 1}
            if "ea" in e2["a"]:
                used.add(e2["a"]["ea"] % n)
            free = [p for p in range(n) if e2["x"]["s"][p] == 1 and p not in used and (op in KEEP or p == 0)]
            if free:
                e, p = e2, g.choice(free)
                break
        else:
            return None
    else:
        return None
    if g.chance(.2):        # or no item at all
        for t in (e["x"], e["y"]):
            if t["dt"]:
                t["s"][p], t["d"], t["lay"] = 0, [], "c"
        return e
    m = g.choice([1, 2, 2, 3]) if op in KEEP or op in ("metric", "ssim", "ms_ssim") or e["x"]["s"][0] == 1 else 1
    for t in (e["x"], e["y"]):
        if t["dt"]:
            if len(t["s"]) != len(e["x"]["s"]) or t["s"][p] != e["x"]["s"][p]:
                return None
    R = None
    for t in (e["x"], e["y"]):
        if t["dt"]:
            old = t["s"][p]
            if m > 1:
                t["s"][p] = old * m
                t["d"] = [g.choice(t["d"]) for _ in range(prod(t["s"]))]
            rest = prod(t["s"]) // t["s"][p]
            R = R or max(t["s"][p], g.choice([300, 1100, 5000, 20000, 70000, 150000]) // rest) + g.randint(0, 2)
            R = R if op != "loss" else R - R % t["s"][p]
            t["lay"] = "r%d:%d" % (p, R)
    return e


PAIRS = {"b14", "b41", "rgb1", "rgb4", "bconv", "demosaic", "merge3"}


def stretched(g, e):
    """The call with one axis made long, and the others short if need be."""
    if not e["x"]["dt"] or e["ct"] or e.get("r", {}).get("special") or prod(e["x"]["s"] or [0]) == 0 or e["x"].get("lay", "c")[0] in "er":
        return None
    op, n = e["op"], len(e["x"]["s"])
    if e["y"]["dt"] and e["y"]["s"] != e["x"]["s"] or op not in KEEP | PAIRS | {"metric", "ssim", "ms_ssim"}:
        return None
    e = json.loads(json.dumps(e))
    s = e["x"]["s"]
    a = g.choice(resolve(n, e["ax"]) or [n - 1] if e["ax"]["k"] != "all" else range(n))
    k = g.randint(33, g.choice([70, 150, 300]))
    if op in PAIRS:
        a, k = n - g.randint(1, 2), 2 * (k // 4)
    s[a] = k
    for i in range(n):
        if i != a % n and prod(s) > 600 and not (op in PAIRS and i >= n - 3):
            s[i] = 1
    if prod(s) > (300 if op in ("ssim", "ms_ssim") else 1200):
        return None
    for t in (e["x"], e["y"]):
        if t["dt"]:
            t["s"] = list(s)
            t["d"] = [g.choice(t["d"]) for _ in range(prod(s))]
            if op in KEEP | {"metric"} and t["dt"] in ("f8", "f4") and g.chance(.6):
                t["d"] = [q(g.dy(8, (1, 2, 4))) for _ in range(prod(s))]
    return e


def holds(v, dt):
    f = abs(Fr(v))
    if f == 0:
        return True
    bits = {"f2": 11, "b2": 8, "f4": 24}[dt]
    d = f.denominator
    return d & (d - 1) == 0 and f.numerator < 2 ** bits and d <= 64 and f < 2000


HALF = {"pad", "pad_axis", "pool", "component", "all_components", "conv1"}


def retype(g, e, dt):
    if not e["x"]["dt"]:
        return None
    if e["op"] not in HALF or e["ct"] or e["x"]["dt"] not in ("f8", "f4") or not all(holds(v, dt) for v in e["x"]["d"]):
        return None
    e = json.loads(json.dumps(e))
    e["x"]["dt"] = dt
    if e["dt"]:
        e["dt"] = dt
    return e


SCALED = {"pad", "pad_axis", "pool", "component", "all_components", "conv1", "unsharp", "metric", "crop", "magnitude",
          "rgb1", "rgb4", "b14", "b41", "down1", "down4", "bconv", "merge3", "outer", "describe", "loss"}


def exact(v, dt):
    """Whether the type holds the rational number v."""
    v = abs(Fr(v))
    if v == 0:
        return True
    n, d = v.numerator, v.denominator
    return d & (d - 1) == 0 and (n >> ((n & -n).bit_length() - 1)).bit_length() <= (24 if dt == "f4" else 53) \
        and Fr(1, 2 ** 100) <= v < 2 ** 100


def rescale(g, e, c, off):
    if not e["x"]["dt"]:
        return None
    if e["op"] == "crop" and c == 0 or e["y"]["dt"] not in ("", "f8", "f4"):
        return None     # crops are told apart by their distinct samples
    if e["ct"] and (abs(c) < 1 or e["op"] in ("metric", "ssim", "ms_ssim", "magnitude", "unsharp", "loss", "demosaic")) or e["op"] == "magnitude" and e["a"]["p"] != 1:
        return None
    if e["op"] in ("gauss", "poisson") and c == 0 and off == 0:
        pass
    elif e["op"] not in SCALED or e["x"]["dt"] not in ("f8", "f4") or e.get("r", {}).get("special"):
        return None
    e = json.loads(json.dumps(e))
    for t in (e["x"], e["y"]):
        if t["dt"]:
            d = [Fr(v) * c + off for v in t["d"]]
            if not all(exact(v, t["dt"]) for v in d):
                return None
            t["d"] = [q(v) for v in d]
    return e


def change(p, f):
    """The history with every call on a tensor changed by f (None: leave it out)."""
    out, some = [], False
    for e in p["ev"]:
        if e["x"]["dt"]:
            e = f(e)
            if e is None:
                return None
            some = True
        out.append(e)
    return {"ev": out} if some else None


def aliased(g, e):
    """The call on two tensors that share memory."""
    x, y = e["x"], e["y"]
    if e["ct"] or not y["dt"] or y["dt"] != x["dt"] or x["s"] != y["s"] or not x["d"] or any(t.get("lay", "c")[0] in "er" for t in (x, y)):
        return e
    e = json.loads(json.dumps(e))
    s, d, n = x["s"], x["d"], len(x["s"])
    how = g.choice(["same", "view", "next", "next", "turned", "turned", "turned"])
    pairs = [[i, j] for i in range(n) for j in range(i) if s[i] == s[j] > 1]
    if how == "turned" and not pairs or how == "next" and n == 0:
        how = g.choice(["same", "view"])
    if how in ("same", "view"):
        e["y"]["d"] = list(d)
    elif how == "next":
        e["y"]["d"] = [e["y"]["d"][i] if (i + 1) % s[-1] == 0 else d[i + 1] for i in range(len(d))]
    else:
        how = g.choice(pairs)
        st = [prod(s[i + 1:]) for i in range(n)]
        perm = [how[1] if i == how[0] else how[0] if i == how[1] else i for i in range(n)]
        at = lambda i: sum(i // st[a] % s[a] * st[perm[a]] for a in range(n))
        e["y"]["d"] = [d[at(i)] for i in range(len(d))]
    e["r"] = dict(e.get("r", {}), alias=how)
    return e


def shuffled(g, e):
    """The call on the same samples in another order."""
    e = json.loads(json.dumps(e))
    for t in (e["x"], e["y"]):
        if t["dt"] and t.get("lay", "c")[0] != "e":
            g.shuffle(t["d"])
    return e


def twin(g, p):
    """A call repeated on other samples of the same shape, and again on the first ones."""
    js = [j for j, e in enumerate(p["ev"]) if e["x"]["dt"] and not e["ct"]]
    if not js:
        return None
    j = g.choice(js)
    e = p["ev"][j]
    return {"ev": p["ev"][:j + 1] + [shuffled(g, e), json.loads(json.dumps(e))] + p["ev"][j + 1:]}


MORPH = {"pad", "pad_axis", "pool", "component", "all_components", "magnitude", "horizontal", "vertical", "unsharp", "metric", "ssim",
         "ms_ssim", "bconv", "loss", "conv1", "b14", "b41", "rgb1", "rgb4"}


def morph(g, e):
    """A further call like e: other samples, order of axes, shape, rank or type; or e itself."""
    e = json.loads(json.dumps(e))
    x, y = e["x"], e["y"]
    how = g.choice(["same", "shuffled", "turned", "turned", "swapped", "swapped", "shorter", "longer", "retyped", "uplift"])
    ts = [t for t in (x, y) if t["dt"]]
    if how == "same" or e["op"] not in MORPH or e["ct"] or len(ts) == 2 and x["s"] != y["s"] or any(t.get("lay", "c")[0] in "er" for t in ts) \
            or e.get("r", {}).get("special"):
        return e
    n = len(x["s"])
    if how == "shuffled":
        return shuffled(g, e)
    if how == "turned":
        r = resolve(n, e["ax"]) if not e.get("r", {}).get("noax") else None
        if not r or len(r) < 2 or len(set(v % n for v in r)) < len(r):
            how = "swapped"
        else:
            e["ax"] = SEQ(*g.choice([r[::-1], r[1:] + r[:1], g.sample(r, len(r))]))
            return e
    if how == "swapped" and n > 1:
        i, j = g.sample(range(n), 2) if e["op"] not in ("bconv", "rgb1", "rgb4", "b14", "b41") else (n - 2, n - 1)
        for t in ts:
            t["s"][i], t["s"][j] = t["s"][j], t["s"][i]
    elif how in ("shorter", "longer") and n and e["op"] not in ("b14", "b41", "rgb1", "rgb4", "bconv"):
        i = g.randrange(n)
        k = x["s"][i] + (1 if how == "longer" else -1)
        if k > 0 and 0 < prod(x["s"]) < 400:
            for t in ts:
                t["s"][i] = k
                t["d"] = [t["d"][j % len(t["d"])] for j in range(prod(t["s"]))]
    elif how == "retyped":
        dt = {"f8": "f4", "f4": "f8"}.get(x["dt"])
        if dt and e["op"] != "loss" and e["op"] != "bconv" and all(t["dt"] == x["dt"] and all(exact(v, dt) for v in t["d"]) for t in ts):
            if e["dt"] == x["dt"]:
                e["dt"] = dt
            for t in ts:
                t["dt"] = dt
    elif how == "uplift":
        return uplift(g, e) or e
    return e


def again(g, p, n):
    """The history and n further calls like those in it, then the first ones once more."""
    made = [e["id"] for e in p["ev"] if e["id"] and not e["x"]["dt"]]
    calls = [e for e in p["ev"] if e["x"]["dt"] and made.count(e["id"]) < 2 and not e["ct"]]
    if not calls:
        return None
    return {"ev": p["ev"] + [morph(g, g.choice(calls)) for _ in range(n)] + [json.loads(json.dumps(e)) for e in g.sample(calls, min(2, len(calls)))]}


# Histories of two origins, with all objects of both living side by side

def renamed(e, suf):
    e = json.loads(json.dumps(e))
    if e["id"]:
        e["id"] += suf

    def walk(t):
        if isinstance(t, dict):
            if t.get("k") == "ref":
                t["v"] += suf
            for v in t.values():
                walk(v)
        elif isinstance(t, list):
            for v in t:
                walk(v)
    walk(e["a"])
    a = e["a"]
    if isinstance(a.get("blur"), str):
        a["blur"] += suf
    if "src" in a and e["op"].startswith("spec."):
        a["src"] += suf
    if "ids" in a:
        a["ids"] = [i + suf for i in a["ids"]]
    return e


def mingle(g, p, r):
    """Both histories interleaved, then some of their calls again on other samples."""
    a, b = list(p["ev"]), [renamed(e, "~") for e in r["ev"]]
    out = []
    while a or b:
        t = a if a and (not b or g.chance(len(a) / (len(a) + len(b)))) else b
        out.append(t.pop(0))
    made = [e["id"] for e in out if e["id"] and not e["x"]["dt"]]
    calls = [e for e in out if e["x"]["dt"] and made.count(e["id"]) < 2]     # of objects still the same
    for e in g.sample(calls, min(len(calls), 4)):
        out.append(shuffled(g, e) if g.chance(.3) else morph(g, e))
    return {"ev": out}


def make(g, eps, n):
    """About n further histories."""
    out = []
    kinds = {}          # histories by the calls they make: the rare ones count as much
    for p in eps:
        kinds.setdefault(",".join(sorted({e["op"] for e in p["ev"]})), []).append(p)
    names = sorted(kinds)
    for _ in range(6 * n):
        if len(out) >= n or not eps:
            break
        p = g.choice(eps) if g.chance(.5) else g.choice(kinds[g.choice(names)])
        if len(json.dumps(p)) > 12000:
            continue
        c = g.random()
        if any(e["y"]["dt"] for e in p["ev"]) and g.chance(.25):
            v = change(p, lambda e: aliased(g, e))
        elif c < .07:
            v = twin(g, p)
        elif c < .15:
            v = again(g, p, 4)
        elif c < .23:
            v = change(p, lambda e: tiled(g, e))
        elif c < .28:
            v = change(p, lambda e: stretched(g, e))
        elif c < .32:
            r = g.choice(eps)
            v = mingle(g, p, r) if len(json.dumps(r)) < 12000 else None
        elif c < .5:
            v = change(p, lambda e: uplift(g, e))
        elif c < .63:
            dt = g.choice(["f2", "f2", "b2"])
            v = change(p, lambda e: retype(g, e, dt))
        else:
            s, o = g.choice([(Fr(1, 1024), 0), (Fr(1, 32), Fr(1, 2)), (4, 100), (-1, 0), (64, 0), (512, 0), (512, 0), (0, 1), (0, 0), (0, 0), (1 + Fr(1, 2 ** 33), 0), (1 + Fr(1, 2 ** 33), 0), (Fr(1, 2 ** 30), 0), (2 ** 14, 0), (1, -40)])
            v = change(p, lambda e: rescale(g, e, Fr(s), o))
        if v:
            out.append(v)
    for f, quota in ((tiled, 20), (stretched, 6)):      # some of these always, over all kinds of call
        for _ in range(8 * quota):
            p = g.choice(kinds[g.choice(names)]) if names else None
            v = p and len(json.dumps(p)) < 12000 and change(p, lambda e: f(g, e))
            if v:
                out.append(v)
                quota -= 1
            if not quota:
                break
    return out

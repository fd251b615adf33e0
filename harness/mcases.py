"""Which exhaustive models belong to which property, with which bounds, and
how their cases become histories."""
from build import *
from gens import COPYDT


def group(evs, n):
    return [ep(evs[i:i + n]) for i in range(0, len(evs), n)]


def pick(g, cases, n):
    """All cases, or a random n of them."""
    return cases if len(cases) <= n else g.sample(cases, n)


# -- MC_Extension -----------------------------------------------------------

def extension(limit):
    def conv(g, k, cases):
        eps = []
        for c in pick(g, cases, limit * k):
            n, w = c["n"], (c["b"], c["a"])
            if g.chance(.5):       # the generic signal itself
                x = tens([n], [64 ** i for i in range(1, n + 1)], "i8" if n < 9 and g.chance(.6) else "f8")
            else:
                x = g.tensor([n], g.choice(["f8", "f4", "i8"] if c["mode"] in INTMODES else ["f8", "f4"]))
            pos = g.choice(["1", "r", "c", "m"])
            if pos == "1":
                ax, m = g.choice([ALL, INT(0), INT(-1), SEQ(0)]), x
            elif pos == "r":
                m, ax = tens([1, n], x["d"], x["dt"], g.choice("ct")), g.choice([INT(1), INT(-1), SEQ(-1)])
            elif pos == "c":
                m, ax = tens([n, 1], x["d"], x["dt"], g.choice("ct")), g.choice([INT(0), INT(-2), SEQ(0)])
            else:
                m, ax = tens([2, n, 1], x["d"] + [q(Fr(v) + 1) if not isinstance(v, str) else v for v in x["d"]], x["dt"], g.choice("ctso")), INT(1)
            eps.append(ep(padder("p", w, c["mode"]), ev("pad", "p", x=m, ax=ax, dt=x["dt"])))
        return eps
    return conv


def adjoint(g, k, cases):
    eps = []
    for c in pick(g, cases, 250 * k):
        n, w, m = c["n"], c["b"] + c["a"], c["mode"]
        L = n + w + (m == "periodize" and n % 2)
        x = g.tensor([n], "f8", lim=4)
        ct = tens([L], [g.randint(-9, 9) for _ in range(L)], "f8", "c")
        eps.append(ep(padder("p", (c["b"], c["a"]), m), ev("pad", "p", x=x, ax=ALL, dt="f8", ct=ct)))
    return eps



# -- MC_Nd, MC_Axes, MC_Edge -------------------------------------------------

def perm_input(g, s, dt):
    v = g.distinct(prod(s)) if g.chance(.5) else g.vals(prod(s), dt)
    return tens(s, v, dt, g.lay())


def nd_padder(c):
    k = len(c["axs"])
    cv = [(100 * j, -100 * j) for j in range(1, k + 1)]
    return padder("p", [tuple(w) for w in c["pw"]], list(c["mode"]), cv, cv, [(j, None) for j in range(1, k + 1)])


def nd_case(how, limit):
    def conv(g, k, cases):
        eps = []
        for c in pick(g, cases, limit * k):
            n = len(c["s"])
            ok = all(m in INTMODES for m in c["mode"])
            x = perm_input(g, c["s"], g.choice(["f8", "f4", "i8", "i4"] if ok else ["f8", "f4"]))
            axs = [a if g.chance(.7) else a - n for a in c["axs"]]
            evs = [nd_padder(c)]
            if how != "axis":
                evs.append(ev("pad", "p", x=x, ax=g.axarg(n, axs), dt=x["dt"]))
            else:
                for j in g.sample(range(len(axs)), len(axs)):
                    evs.append(ev("pad_axis", "p", {"i": j if g.chance(.5) else j - len(axs), "axis": axs[j]}, x=x, dt=x["dt"]))
                if g.chance(.3):
                    evs.append(ev("pad", "p", x=x, ax=SEQ(axs[-1]), dt=x["dt"]))
            eps.append(ep(evs))
        return eps
    return conv


def axes_case(limit, use):
    def conv(g, k, cases):
        evs = []
        for c in pick(g, cases, limit * k):
            s = [g.randint(1, 3) for _ in range(c["n"])]
            x = g.tensor(s, "f8")
            evs.append([ev("axes", "", x=x, ax=c["ax"])])
            if use == "pad" and not (c["ax"]["k"] == "seq" and len({a % c["n"] for a in c["ax"]["a"]}) < len(c["ax"]["a"])):
                m = g.choice(PADMODES + ODDMODES)
                evs[-1] += [padder("p", (1, 2), m), ev("pad", "p", x=x, ax=c["ax"], dt="f8")]
        return [ep(*evs[i:i + 6]) for i in range(0, len(evs), 6)]
    return conv


def edge_case(limit):
    def conv(g, k, cases):
        evs = []
        for c in pick(g, cases, limit * k):
            m, n = c["mode"], len(c["f"])
            other = (g.randint(0, 3), g.choice([None, 0, 1, 2, 5]), g.randint(-9, 9))
            side = lambda a, b: (a, b) if c["side"] == "before" else (b, a)
            ln = c["len"][0] if c["len"] else None
            v = side(30, other[2])
            dt = g.choice(["f8", "f4"] if m in ("mean", "linear_ramp") else ["f8", "f4", "i8"])
            lift = g.randint(-3, 3)
            x = tens([n], [v_ + lift if m not in ("constant", "zeros", "linear_ramp") else v_ for v_ in c["f"]], dt, g.lay())
            if g.chance(.3):
                x, ax = tens([1, n, 1], x["d"], dt, g.choice("ct")), g.choice([INT(1), SEQ(-2)])
            else:
                ax = g.choice([ALL, INT(0), SEQ(-1)])
            evs.append([padder("p", side(c["w"], other[0]), m, v if m == "constant" else 0, v if m == "linear_ramp" else 0, side(ln, other[1])),
                        ev("pad", "p", x=x, ax=ax, dt=dt)])
        return [ep(*evs[i:i + 4]) for i in range(0, len(evs), 4)]
    return conv


# -- MC_Windows, MC_Pool, MC_Kernel --------------------------------------------

SAMEABLE = ["replicate", "circular", "symmetric", "reflect", "zeros", "smooth", "odd_reflect"]


def windows_same(g, k, cases):
    b = [ev("same_width", "", {"k": c["k"], "s": [c["s"]], "n": [c["n"]]}) for c in cases]
    eps = group(b, 20)
    for c in pick(g, cases, 120 * k):
        o = ev("AvgPoolNd", "f", {"ks": tree(c["k"]), "stride": tree(c["s"]), "cip": True, "pad": pstr(g.choice(SAMEABLE))}) if g.chance(.4) else \
            ev("SeparablePoolNd", "f", {"kernel": tree(qsmall(g, c["k"])), "stride": tree(c["s"]), "pad": pstr(g.choice(SAMEABLE))})
        x, ax = line(g, c["n"])
        eps.append(ep(o, ev("pool", "f", x=x, ax=ax, dt=x["dt"])))
    return eps


def qsmall(g, n):
    return [g.randint(-4, 4) for _ in range(n)]


def line(g, n, dts=("f8", "f8", "f4")):
    """A tensor with one axis of length n, and that axis."""
    r = g.randint(1, 3)
    a = g.randrange(r)
    s = [g.choice([1, 1, 2]) for _ in range(r)]
    s[a] = n
    return g.tensor(s, g.choice(dts), lim=6), g.choice([INT(a), INT(a - r), SEQ(a)])


def windows_cover(g, k, cases):
    b = []
    for c in pick(g, cases, 1200 * k):
        b.append(ev("cov1", "", {"n": c["n"], "pb": c["pb"], "pa": c["pa"], "k": c["k"], "s": c["s"]}))
        n = c["n"] + c["pb"] + c["pa"]
        if c["d"] * (c["k"] - 1) + 1 <= n:
            b.append(ev("conv_1d", "", {"n": n, "k": c["k"], "s": c["s"], "d": c["d"]}))
    return group(b, 25)


def windows_conv(g, k, cases):
    eps = []
    for c in pick(g, cases, 400 * k):
        n = c["n"] + c["pb"] + c["pa"]
        if c["d"] * (c["k"] - 1) + 1 > n:
            if g.chance(.9):
                continue
        x, ax = line(g, n)
        d = ax["a"] if ax["k"] == "int" else ax["a"][0]
        eps.append(ep(ev("conv1", "", {"w": qsmall(g, c["k"]), "dim": d, "stride": c["s"], "dil": c["d"]}, x=x, dt=x["dt"])))
    return eps


def windows_avg(g, k, cases):
    eps = []
    for c in pick(g, cases, 300 * k):
        x, ax = line(g, c["n"])
        o = ev("AvgPoolNd", "f", {"ks": tree(c["k"]), "stride": tree(c["s"]), "cip": g.chance(.25), "pad": pstr(g.choice(["zeros", "constant"]))})
        eps.append(ep(o, ev("pool", "f", x=x, ax=ax, dt=x["dt"])))
    return eps


def pool_case(limit, cls="SeparablePoolNd"):
    def conv(g, k, cases):
        eps = []
        for c in pick(g, cases, limit * k):
            n = len(c["s"])
            kl = [qsmall(g, z) for z in c["ks"]]
            axs = [a if g.chance(.7) else a - n for a in c["axs"]]
            x = g.tensor(c["s"], g.choice(["f8", "f4"]), lim=5)
            if cls == "EdgeFilter":      # the same axes: first the edge, the others smoothed
                if len(axs) < 2 or any(z == 0 for z in c["ks"]):
                    continue
                evs = [ev("EdgeFilter", "e", {"edge": tree(kl[0]), "smooth": tree(kl[1:] if len(kl) > 2 else kl[1]), "norm": False, "pad": NOPAD}),
                       ev("component", "e", {"ea": axs[0]}, x=x, ax=SEQ(*(axs[1:] if g.chance(.6) else axs)), dt=x["dt"])]
                if g.chance(.3):
                    w = g.choice(PADMODES)
                    evs[0]["a"]["pad"] = pstr(w)
            else:
                evs = [ev("SeparablePoolNd", "f", {"kernel": tree(g.choice([list, tuple])(kl)), "stride": tree(g.choice([list, tuple])(c["st"])), "pad": NOPAD}),
                       ev("pool", "f", x=x, ax=g.axarg(n, axs), dt=x["dt"])]
            eps.append(ep(evs))
        return eps
    return conv


def kernels(g, k, cases):
    evs = [ev("gk", "", {"ks": c["n"], "sigma": c["sigma"], "order": c["order"]}) for c in cases]
    g.shuffle(evs)
    return group(evs, 10)


# -- MC_Nested -------------------------------------------------------------------

def wrap(g, t):
    """The same tree with some lists as tuples or dense arrays."""
    if "c" not in t:
        return t
    kids = [wrap(g, c) for c in t["c"]]
    if kids and all(c["k"] == "i" for c in kids) and g.chance(.12):
        return {"k": g.choice("aT"), "s": [len(kids)], "c": kids}
    return {"k": g.choice("llu"), "c": kids}


def nested_spec(g, k, cases):
    eps = []
    for t in pick(g, cases, 350 * k):
        t = wrap(g, t)
        evs = [ev("spec.new", "s", {"t": t, "item": g.choice([[], [2], [-1], [2, 2], [-1, 2], [3], [1]])}), ev("spec.iter", "s")]
        evs += [ev("spec.get", "s", {"path": [i]}) for i in g.sample(range(-5, 6), 4)]
        eps.append(ep(evs))
    return eps


def heights(t):
    """Distances from the root to the leaves; {} of an empty container counts as -1."""
    if "c" not in t:
        return {0}
    return {h + 1 if h >= 0 else -1 for c in t["c"] for h in heights(c)} or {-1}


def nested_map(g, k, cases):
    eps = []
    for t in pick(g, cases, 250 * k):
        item = g.choice([[], [], [2], [-1]])
        t = wrap(g, t)
        bare = -1 in heights(t) or len(heights(t)) > 1    # a result's depth is then unspecified: only number-valued functions
        evs = [ev("spec.new", "a", {"t": t, "item": item}), ev("spec.new", "b", {"t": tree(g.randint(1, 9)), "item": []}),
               ev("spec.map", "m", {"src": "a", "fn": "sum" if bare else g.choice(["sum", "tup"])}), ev("spec.iter", "m"),
               ev("spec.apply", "f", {"ids": g.choice([["a", "b"], ["b", "a"], ["a"], ["a", "a"]]), "fn": g.choice(["sum", "count"])}),
               ev("spec.get", "f", {"path": [-1]}), ev("spec.iter", "f"), ev("spec.agg", "", {"ids": ["b", "a"]}), ev("spec.iter", "a")]
        if not bare and g.chance(.4):
            evs.append(ev("spec.zip", "z", {"ids": ["a", "b"]}))
            evs.append(ev("spec.iter", "z"))
        eps.append(ep(evs))
    return eps


def nested_shape(g, k, cases):
    b = []
    for t in pick(g, cases, 600 * k):
        u = wrap(g, t)
        b.append(ev("shape", "", {"t": u, "strict": True}))
        b.append(ev("shape", "", {"t": u, "strict": False}))
        for _ in range(2):
            b.append(ev("expand", "", {"t": u, "new": [g.choice([-1, 1, 2, 3]) for _ in range(g.randint(0, 4))]}))
    return group(b, 16)


# -- MC_Bayer ----------------------------------------------------------------------

def bayer_case(ops):
    def conv(g, k, cases):
        eps, b = [], []
        for c in cases:
            if c["op"] not in ops:
                continue
            sa = c["sa"]
            r = {"sa": g.choice([sa, sa.lower()])}
            if c["op"] in ("demosaic",):
                s = c["s"]
                x = tens(s, [Fr(g.randint(0, 64), 64) for _ in range(prod(s))], "f4", g.lay())
                b.append(ev("demosaic", "", {"sa": sa, "clamp": 1}, x=x, dt="f4", r=r))
            else:
                fl = c["op"] in ("down1", "down4")
                dt = g.choice(["f8", "f4"] if fl else ["f8", "f4", "i8", "i4"])
                x = perm_input(g, c["s"], dt)
                b.append(ev(c["op"], "", {"sa": sa} if c["op"] not in ("b14", "b41") else None, x=x, dt=dt, r=r if c["op"] not in ("b14", "b41") else None))
        return group(pick(g, b, 500 * k), 8)
    return conv


# -- MC_Filter, MC_Loss, MC_Metric ----------------------------------------------------

def filter_case(limit):
    def conv(g, k, cases):
        eps = []
        for c in pick(g, cases, limit * k):
            x = tens(c["s"], c["d"], g.choice(["f8", "f4"]), g.lay())
            ax = g.choice([ALL, SEQ(0, 1), SEQ(-1, 0), SEQ(1, 0)])
            evs = [ev("EdgeFilter", "e", {"edge": tree(c["edge"]), "smooth": tree([fr(v) for v in c["smooth"]]), "norm": False, "pad": pstr(c["mode"])})]
            evs.append(g.choice([ev("all_components", "e", x=x, ax=ax, dt=x["dt"]), ev("component", "e", {"ea": g.choice([0, 1, -1])}, x=x, ax=ALL, dt=x["dt"]),
                                 ev("magnitude", "e", {"eps": 0, "p": 2}, x=x, ax=ax, dt=x["dt"])]))
            eps.append(ep(evs))
        return eps
    return conv


def fr(v):
    return Fr(v) if isinstance(v, str) else v


def unsharp_case(limit):
    def conv(g, k, cases):
        eps = []
        for c in pick(g, cases, limit * k):
            x = tens(c["s"], c["d"], g.choice(["f8", "f4"]), g.lay())
            ax = g.choice([ALL, SEQ(0, 1), SEQ(-1, 0), SEQ(1, 0)])
            evs = [ev("SeparablePoolNd", "f", {"kernel": tree([fr(v) for v in c["smooth"]]), "stride": tree(g.choice([None, 2])), "pad": NOPAD})]
            for j, (am, th) in enumerate([(g.choice([0, 1, 2]), 0), (2, g.choice([3, 6, 9]))]):
                evs += [ev("UnsharpMask", "u%d" % j, {"blur": "f", "amount": am, "threshold": q(Fr(th, 4)), "pad": pstr(c["mode"])}),
                        ev("unsharp", "u%d" % j, {"slack": 0}, x=x, ax=ax, dt=x["dt"])]
            eps.append(ep(evs))
        return eps
    return conv


def loss_case(g, k, cases):
    eps = []
    for c in pick(g, cases, 120 * k):
        x, y = tens(c["s"], c["x"], "f8", g.lay()), tens(c["s"], c["y"], "f8", g.lay())
        kind = g.choice(["GaussianEdgeLoss", "WeightedMul", "WeightedSum", "WeightedDiv"])
        eps.append(ep(ev("Loss", "l", {"kind": kind, "ks": tree(3), "sigma": tree(g.choice([1, Fr(3, 4)])), "order": 1}),
                      ev("loss", "l", x=x, y=y, dt="f8"), ev("loss", "l", x=y, y=x, dt="f8")))
    return eps


def metric_case(g, k, cases):
    eps = []
    for c in pick(g, cases, 250 * k):
        n = len(c["s"])
        dt = g.choice(["f8", "f4"])
        x, y = tens(c["s"], c["x"], dt, g.lay()), tens(c["s"], c["y"], dt, g.lay())
        ax = g.axarg(n, [a if g.chance(.6) else a - n for a in g.sample(c["axs"], len(c["axs"]))])
        for o in (ev("MSE", "m", {"red": g.choice(["mean", "sum"])}), ev("PSNR", "m", {"red": "mean", "maxv": g.choice([1, 10, 255]), "eps": 0})):
            eps.append(ep(o, ev("metric", "m", x=x, y=y, ax=ax, dt=dt)))
    return eps


def ssim_case(ms):
    def conv(g, k, cases):
        eps = []
        for c in cases:
            if len(c["s"]) != 2 or min(c["s"]) < (5 if ms else 2):
                continue
            sc = lambda d: tens(c["s"], [Fr(v, 16) for v in d], "f8", g.lay())
            x, y = sc(c["x"]), sc(c["y"])
            a = {"blur": {"k": "ref", "v": "b"}, "pad": NOPAD, "K1": "1/16", "K2": "1/4", "sample": g.chance(.3), "crop": True}
            evs = [ev("AvgPoolNd", "b", {"ks": tree(2), "stride": NONE, "cip": True, "pad": NOPAD})]
            for u, v in ((x, y), (y, x), (x, x)):
                if ms:
                    evs += [ev("MS_SSIM", "m", dict(a, weights=g.choice([["1/4", "3/4"], ["1"], ["1/2", "1/2"]]), prod=g.chance(.5), eps="1/1048576")),
                            ev("ms_ssim", "m", x=u, y=v, ax=ALL, rx=ALL, dt="f8")]
                else:
                    evs += [ev("SSIM", "m", a), ev("ssim", "m", {"full": g.chance(.5)}, x=u, y=v, ax=ALL, rx=g.choice([ALL, SEQ(*c["axs"])]), dt="f8")]
            eps.append(ep(evs))
        return pick(g, eps, 100 * k)
    return conv


# -- MC_Poly, MC_Power, MC_Describe, MC_Format, MC_Display, MC_Crop ----------------------

def poly_case(xs):
    def conv(g, k, cases):
        evs = []
        for c in pick(g, cases, 500 * k):
            i8 = g.chance(.3)
            x = tens([len(xs)], [v for v in xs], "f8", g.lay()) if not i8 else tens([4], [-2, 0, 1, 3], "i8")
            evs.append(ev("poly", "", {"p": c["p"]}, x=x, dt=x["dt"], r={"pt": g.choice(["list", "tuple"])}))
            if g.chance(.3):
                d = g.choice(["f8", "f4", "i8"])
                evs.append(ev("outer", "", x=tens([len(c["p"])], c["p"], d), y=tens([1, len(c["p"])], c["p"], d), dt=d))
        return group(evs, 8)
    return conv


def power_case(g, k, cases):
    evs = []
    for c in cases:
        how = g.choice(["t", "num", "b"])
        r = {}
        dt = g.choice(["f8", "f8", "f4"])
        rest = [g.choice([1, 2, 3, Fr(5, 2)]) for _ in range(2)]
        if how == "t":
            x, y = tens([3], [fr(c["x"])] + rest, dt, g.lay()), tens([3], [fr(c["e"]), 1, 2], dt, g.lay())
        elif how == "num":
            x, y, r = tens([3], [fr(c["x"])] + rest, dt, g.lay()), tens([], [c["e"]], "f8"), {"ynum": 1}
        else:
            x, y = tens([3, 1], [fr(c["x"])] + rest, dt, g.lay()), tens([2], [fr(c["e"]), 1], dt)
        ct = None
        if dt == "f8" and how != "num" and g.chance(.4):
            s = [3] if how == "t" else [3, 2]
            ct = {"s": s, "d": [g.randint(-3, 3) for _ in range(prod(s))], "dt": "f8"}
        evs.append(ev("spow", "", {"eps": c["eps"]}, x=x, y=y, dt=dt, r=r, ct=ct))
    return group(evs, 4)


def describe_case(g, k, cases):
    evs = []
    for c in pick(g, cases, 400 * k):
        n = len(c["d"])
        s = [n] if n % 2 or g.chance(.5) else [2, n // 2]
        evs.append(ev("describe", "", {"rep": 1}, x=tens(s, c["d"], g.choice(["f8", "f4"]), g.lay())))
    return group(evs, 10)


def format_case(g, k, cases):
    evs = []
    for c in pick(g, cases, 400 * k):
        kind = g.choice([list, tuple])
        flat = [v for p in reversed(c["w"]) for v in p]
        evs.append(ev("fmt", "", {"pad": tree(kind(tuple(p) for p in c["w"])), "src": "numpy", "dst": "torch", "nd": []}))
        evs.append(ev("fmt", "", {"pad": tree(kind(flat)), "src": "torch", "dst": "numpy", "nd": [c["nd"]]}))
    return group(evs, 12)


def display_case(g, k, cases):
    return group([ev("ppd", "", {"diag": c["diag"], "hp": c["hp"], "wp": c["wp"], "dist": c["dist"]}) for c in pick(g, cases, 200 * k)], 8)


def crop_case(g, k, cases):
    eps = []
    for c in pick(g, cases, 90 * k):
        n, s = len(c["s"]), c["s"]
        sel = g.sample(range(n), n)
        size = [None if c["want"][a] == s[a] and g.chance(.5) else c["want"][a] for a in sel]
        poss = prod([s[a] - c["want"][a] + 1 for a in range(n)])
        x = tens(s, g.distinct(prod(s)), g.choice(["f8", "f4", "i8"]), g.lay())
        eps.append(ep(ev("crop", "", {"size": tree(size), "draws": 40 * poss if poss <= 9 else 4, "seed": g.randint(0, 10 ** 6)}, x=x,
                         ax=g.axarg(n, [a if g.chance(.6) else a - n for a in sel]), dt=x["dt"])))
    return eps


def device_case(g, k, cases):
    """Two layers sharing a padder or a blur layer, called as the schedule says."""
    eps = []
    for c in pick(g, cases, 80 * k):
        far = [d == "accel" for d in c["home"]]

        def kern_(i):
            n = g.randint(2, 3)
            t = dense([g.randint(-3, 4) for _ in range(n)], [n], "T", "f8")
            if far[i]:
                t["dv"] = 1
            return t
        kind = g.choice(["padder", "blur", "edge"])
        P = pref("p")
        evs = [padder("p", 0, g.choice(FLOATMODES), (1, 2), (2, -1), 2)]
        use = {}
        if kind == "padder":
            for l in (1, 2):
                if g.chance(.6):
                    evs.append(ev("SeparablePoolNd", "l%d" % l, {"kernel": kern_(l), "stride": tree(g.choice([None, 1, 2])), "pad": P}))
                else:
                    evs.append(ev("GaussianPoolNd", "l%d" % l, {"ks": tree(3), "sigma": tree(1), "order": tree(g.choice([0, 1])), "stride": tree(g.choice([1, 2])), "pad": P}))
                use[l] = "pool"
        elif kind == "edge":
            for l in (1, 2):
                evs.append(ev("EdgeFilter", "l%d" % l, {"edge": kern_(l), "smooth": kern_(0), "norm": False, "pad": P}))
                use[l] = "component"
        else:
            evs.append(ev("SeparablePoolNd", "b", {"kernel": kern_(0), "stride": tree(1), "pad": NOPAD}))
            evs.append(ev("UnsharpMask", "l1", {"blur": "b", "amount": g.choice([1, "1/2"]), "threshold": 0, "pad": P}))
            evs.append(ev("SSIM", "l2", {"blur": {"k": "ref", "v": "b"}, "pad": P, "K1": "1/16", "K2": "1/4", "sample": False, "crop": True}))
            use = {1: "unsharp", 2: "ssim"}
        for q in c["calls"]:
            l, dv = q["l"], "" if q["d"] == "cpu" else "accel"
            s = g.choice([[4, 5], [5, 4], [2, 4, 5]])
            dt = g.choice(["f8", "f4"])
            ax = [len(s) - 2, len(s) - 1]
            if use[l] == "ssim":
                x, y = g.tensor([5, 4], "f8"), g.tensor([5, 4], "f8")
                e = ev("ssim", "l2", {"full": False}, x=x, y=y, ax=ALL, rx=ALL, dt="f8")
            elif use[l] == "component":
                e = ev("component", "l%d" % l, {"ea": g.choice(ax)}, x=g.tensor(s, dt), ax=SEQ(*ax), dt=dt)
            else:
                e = ev(use[l], "l%d" % l, {"slack": "1/10000"} if use[l] == "unsharp" else {"z": 0}, x=g.tensor(s, dt), ax=SEQ(*ax), dt=dt)
            e["dv"] = dv
            evs.append(e)
        eps.append(ep(evs))
    return eps


def some(seed, modes, k, must=()):
    """k of the modes, chosen by the seed (with replacement across seeds)."""
    r = Gen("models-%s" % seed)
    return sorted(set(must) | set(r.sample([m for m in modes if m not in must], k - len(must))))


COPY = ["replicate", "circular", "periodize", "symmetric", "reflect"]
ODD = ["antisymmetric", "odd_reflect", "odd_symmetric", "smooth"]
XS = ["1/2", -2, 0, 3]


def nd(how, limit):
    def f(deep, seed):
        ms = some(seed, COPY + ODD + FILLMODES + STATMODES, 3)
        if deep:
            return [("MC_Nd", {"shapes": [[3], [2, 3], [2, 1, 2]], "axes": 1, "widths": [[0, 1], [3, 2], [0, 0]], "modes": ms + ["periodize"]}, nd_case(how, limit))]
        return [("MC_Nd", {"shapes": [[3], [2, 3]], "axes": 1, "widths": [[1, 3], [0, 2]], "modes": ms}, nd_case(how, limit)),
                ("MC_Nd", {"shapes": [[2, 1, 2]], "axes": 3, "widths": [[1, 2]], "modes": ms[:2]}, nd_case(how, limit // 3))]
    return f


def nested(conv):
    return lambda deep, seed: [("MC_Nested", {"size": 8 if deep else 7, "depth": 4 if deep else 3, "target": 3}, conv)]


def bayer(ops):
    return lambda deep, seed: [("MC_Bayer", {"lead": [[], [2], [1, 2]] if deep else [[], [2]],
                                             "sizes": [[2, 2], [2, 4], [4, 2], [4, 4], [4, 6], [6, 6], [6, 8]] if deep else [[2, 2], [2, 4], [4, 2], [4, 4], [6, 6]]},
                                bayer_case(ops))]


def free(conv):
    return lambda deep, seed: [("MC_Windows", {"radix": 64, "kinds": ["free"], "n": 8 if deep else 6, "k": 6 if deep else 5, "s": 5 if deep else 4,
                                               "d": 3, "pad": 4 if deep else 2}, conv)]


def pool(limit, cls):
    return lambda deep, seed: [("MC_Pool", {"shapes": [[5], [3, 4], [2, 2, 3]] if deep else [[5], [3, 3], [2, 2, 2]], "k": 3, "s": 2}, pool_case(limit, cls))]


def filt(conv):
    return lambda deep, seed: [("MC_Filter", {"shapes": [[2, 2], [2, 3], [3, 2]] if deep else [[2, 2], [2, 3]], "values": [0, 1, 3] if deep else [0, 3],
                                              "smooth": [[1, 2, 1], ["1/4", "1/2", "1/4"]],
                                              "modes": ["reflect", "zeros", "replicate"] if deep else [["reflect", "replicate", "symmetric", "circular", "zeros"][seed % 5]]}, conv)]


def metric(shapes, deepshapes, conv):
    return lambda deep, seed: [("MC_Metric", {"values": [0, 1, 3], "shapes": deepshapes if deep else shapes}, conv)]


MODELS = {
    "C01": nd("nd", 150),
    "C06": nd("nd", 300),
    "C07": nd("axis", 300),
    "C04": lambda deep, seed: [("MC_Edge", {"modes": FILLMODES, "n": 4 if deep else 3, "w": 7 if deep else 5}, edge_case(500))],
    "C05": lambda deep, seed: [("MC_Edge", {"modes": STATMODES, "n": 5 if deep else 4, "w": 1}, edge_case(800))],
    "C08": nested(nested_spec),
    "C09": nested(nested_map),
    "C10": nested(nested_shape),
    "C11": lambda deep, seed: [("MC_Windows", {"radix": 64, "kinds": ["same"], "n": 16 if deep else 12, "k": 12 if deep else 9, "s": 8 if deep else 6, "d": 1, "pad": 0}, windows_same)],
    "C12": pool(300, "SeparablePoolNd"),
    "C13": free(windows_avg),
    "C14": lambda deep, seed: [("MC_Kernel", {"size": 15 if deep else 9, "sigma": ["1/2", 1, "3/2", 3], "order": 6 if deep else 4}, kernels)],
    "C15": free(windows_cover),
    "C16": free(windows_conv),
    "C17": lambda deep, seed: filt(filter_case(150))(deep, seed) + pool(300, "EdgeFilter")(False, seed),
    "C18": filt(unsharp_case(150)),
    "C20": metric([[2], [2, 2], [2, 2, 2]], [[2], [3], [2, 2], [2, 2, 2], [2, 1, 2, 2]], metric_case),
    "C21": metric([[2, 2], [3, 2], [4, 3]], [[2, 2], [3, 2], [4, 3], [5, 4], [3, 6]], ssim_case(False)),
    "C22": metric([[5, 5]], [[5, 5], [6, 5], [7, 6]], ssim_case(True)),
    "C23": bayer(["rgb1", "rgb4", "b14", "b41", "down1", "down4"]),
    "C24": bayer([]),
    "C25": bayer(["demosaic"]),
    "C26": lambda deep, seed: [("MC_Poly", {"coef": [0, 1, -2, 3], "degree": 5 if deep else 4, "xs": XS}, poly_case(XS))],
    "C27": lambda deep, seed: [("MC_Power", {"base": [0, 1, -1, "1/2", "-5/2", 3, -4], "exp": [0, 1, 2, 3, -1, -2, "1/2", "1/3", "-3/2", "5/4", "7/3"] + ([5, -3, "-1/4", "9/2"] if deep else []),
                                             "eps": [0, "1/64", 1]}, power_case)],
    "C28": lambda deep, seed: [("MC_Crop", {"shapes": [[5], [3, 4], [2, 3, 2], [2, 2, 2, 2]] + ([[8], [4, 4], [3, 3, 3]] if deep else [])}, crop_case)],
    "C31": lambda deep, seed: [("MC_Axes", {"n": 5 if deep else 4, "len": 2}, axes_case(1200, "axes"))],
    "C32": lambda deep, seed: [("MC_Loss", {"shapes": [[1, 2, 3, 2], [2, 1, 2, 3]], "mult": [1, 3, 7] if deep else [1, 3], "at": [1, 4, 6], "values": [0, 5], "steps": 3 if deep else 2}, loss_case)],
    "C36": lambda deep, seed: [("MC_Device", {"layers": 2, "calls": 5 if deep else 4}, device_case)],
    "C33": lambda deep, seed: [("MC_Describe", {"values": [-2, 0, 1, 5], "len": 6 if deep else 5}, describe_case)],
    "C34": lambda deep, seed: [("MC_Format", {"w": 2, "n": 4 if deep else 3}, format_case)],
    "C35": lambda deep, seed: [("MC_Display", {"diag": 300, "res": [[1080, 1920], [600, 800], [900, 900], [5000, 300]], "far": 4 if deep else 2, "big": 2000 if deep else 1000}, display_case)],
    "C02": lambda deep, seed: [("MC_Extension", {"radix": 64, "modes": COPY, "maxlen": 8 if deep else 5, "maxpad": 14 if deep else 8, "back": False}, extension(900))],
    "C03": lambda deep, seed: [("MC_Extension", {"radix": 256, "modes": ODD, "maxlen": 6 if deep else 5, "maxpad": 14 if deep else 8, "back": False}, extension(900))],
    "C30": lambda deep, seed: [("MC_Extension", {"radix": 256, "modes": COPY + ODD, "maxlen": 6 if deep else 4, "maxpad": 9 if deep else 5, "back": True}, adjoint)],
}

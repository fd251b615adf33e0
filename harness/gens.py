"""Episode generators, one per property.  Each takes (g, k): a seeded generator
and a size factor, and returns a list of episodes."""
import json
from fractions import Fraction as Fr

from build import *

# ---------------------------------------------------------------------------
# Padding


def pad_event(g, id, x, sel, dt=None, ct=None, r=None):
    n = len(x["s"])
    r = dict(r or {})
    ax = g.axarg(n, sel)
    if norms(n, sel) == list(range(2, n)) and sel and g.chance(.7):
        ax, r["noax"] = CONTENT, 1
    if ax["k"] == "seq" and g.chance(.4):
        r["axt"] = "list"
    return ev("pad", id, {"z": 0}, x=x, ax=ax, dt=x["dt"] if dt is None else dt, ct=ct, r=r)


def widths(g, hi):
    """(before, after), with a taste for equal, one-sided and zero pairs."""
    m = g.randint(0, hi)
    c = g.random()
    if c < .2:
        return (m, m)
    if c < .35:
        return (m, 0)
    if c < .5:
        return (0, m)
    return (m, g.randint(0, hi))


def fit(s, sel, hi, cap=4000):
    """The largest width up to hi with which the padded tensor stays small."""
    ax = norms(len(s), sel)
    while hi > 1 and prod([v + 2 * hi * (i in ax) for i, v in enumerate(s)]) > cap:
        hi -= 1
    return hi


def par_arg(g, n, one, scalar_ok=True, force=None):
    """A parameter argument: a scalar, one item, or a list of n items."""
    c = g.random() if force is None else force
    if c < .25 and scalar_ok:
        v = one()
        return v[0] if isinstance(v, tuple) else v
    if c < .5:
        return one()
    return g.choice([list, tuple])(one() for _ in range(n))


def stat_pair(g):
    v = lambda: g.choice([None, 1, 2, 3, 4, 7, 0])
    return g.choice([(v(), v()), (v(), v()), g.choice([1, 2, 3])])


def rand_padder(g, id, naxes, modes, hi=6, plen=None, single_mode=None):
    """A random padder with parameter lists of one common length."""
    m = plen if plen is not None else g.choice([naxes, naxes, naxes, max(1, naxes - 1), naxes + 1])
    lists = g.chance(.6)
    f = lambda: (g.random() if lists else g.random() * .5)
    dv = lambda: (q(g.dy(9)), q(g.dy(9)))
    mode = single_mode or (g.choice(modes) if not lists or g.chance(.4) else [g.choice(modes) for _ in range(m)])

    def two(o):
        return lambda: tuple(Fr(v) if isinstance(v, str) else v for v in o())

    pw = par_arg(g, m, lambda: widths(g, hi), force=f())
    cv = par_arg(g, m, two(dv), force=f()) if g.chance(.8) else 0
    e_ = par_arg(g, m, two(dv), force=f()) if g.chance(.8) else 0
    sp = lambda: tuple([g.choice([None, 1, 2, 3, 4, 7, 0]) for _ in range(2)])
    sl = par_arg(g, m, sp, force=f()) if g.chance(.7) else None
    return ev("Padder", id, {"pw": tree(pw), "mode": tree(mode), "cv": tree(cv), "ev": tree(e_), "sl": tree(sl)})


def g_pad(g, count, modes=FLOATMODES, imodes=INTMODES, hi=6, shp=None, ranks=(1, 2, 2, 3, 3, 4)):
    eps = []
    for i in range(count):
        dt = g.choice(["f8", "f8", "f4", "i8", "i4"])
        ms = imodes if dt[0] == "i" else modes
        s = shp(g) if shp else g.shape(ranks=ranks, cap=60 if hi > 4 else 100)
        n = len(s)
        sel = g.axlist(n)
        p = rand_padder(g, "p", len(sel), ms, hi=fit(s, sel, hi if n < 4 else min(hi, 3)))
        if dt[0] == "i":      # integral constants for integer tensors
            p["a"]["cv"] = tree((g.randint(-9, 9), g.randint(-9, 9)))
        eps.append(ep(p, pad_event(g, "p", g.tensor(s, dt), sel)))
    return eps


def g_pad_1d(g, modes, lens, W, every=1, cap=None):
    """Every 1-d signal length and pair of widths (one padder, re-used)."""
    eps = []
    for m in modes:
        for n in lens:
            for b in range(W + 1):
                evs = []
                for a in range(W + 1):
                    if every > 1 and g.randint(1, every) != 1:
                        continue
                    dt = g.choice(["f8", "f8", "f4", "i8"]) if m in INTMODES else g.choice(["f8", "f4"])
                    evs.append(padder("p", (b, a), m))
                    evs.append(ev("pad", "p", x=g.tensor([n], dt), ax=g.choice([ALL, INT(0), INT(-1), SEQ(0), SEQ(-1)]), dt=dt))
                if evs:
                    eps.append(ep(evs))
    return eps


COPYDT = PADMODES + ["zeros", "constant", "maximum", "minimum"]


HUGE = Fr(2) ** 1100       # infinity; three times that is not a number
INFDT = PADMODES + ["zeros", "constant", "antisymmetric", "maximum", "minimum", "median"]
NANDT = PADMODES + ["zeros", "constant"]


def g_pad_dtypes(g, count, modes=None):
    """Uncommon element types and samples."""
    eps = []
    for _ in range(count):
        c = g.random()
        r = {}
        if c < .4:
            dt, ok = g.choice(["f2", "b2", "i2", "i1", "u1", "u1"]), COPYDT
        elif c < .6:      # half precision: every mode
            dt, ok = g.choice(["f2", "b2"]), FLOATMODES
        elif c < .7:      # masks
            dt, ok = "bool", COPYDT
        elif c < .8:      # complex
            dt, ok = "c16", PADMODES + ["antisymmetric", "odd_reflect", "odd_symmetric", "zeros", "constant"]
        else:
            dt, ok, r = g.choice(["f8", "f4", "f2"]), g.choice([INFDT, NANDT]), {"special": 1}
        ok = [m for m in ok if modes is None or m in modes]
        if not ok:
            continue
        s = g.shape(cap=60)
        sel = g.axlist(len(s))
        cvs = lambda: (g.randint(0, 1), 1) if dt == "bool" else (g.randint(0, 9), g.randint(0, 9))
        ms = g.choice(ok) if g.chance(.5) else [g.choice(ok) for _ in sel]
        hi = fit(s, sel, 7 if len(s) < 3 else 3)
        p = padder("p", [widths(g, hi) for _ in sel] if len(s) < 3 else widths(g, hi), ms, cvs(), cvs() if dt in ("f2", "b2") else 0, g.choice([None, 1, (2, None), (1, 3)]))
        x = g.tensor(s, dt)
        if r:
            for i in range(len(x["d"])):
                if g.chance(.3):
                    x["d"][i] = q(g.choice([HUGE, -HUGE] + ([3 * HUGE] if set(ok) <= set(NANDT) else [])))
            if x["lay"][0] == "e":
                x["lay"] = "c"
        e = pad_event(g, "p", x, sel)
        evs = [p, e]
        if g.chance(.3):
            evs.append(ev("pad_axis", "p", {"i": -1, "axis": g.randrange(len(s))}, x=x, dt=dt))
        if r:
            for e in evs[1:]:
                e["r"] = dict(e.get("r") or {}, **r)
        eps.append(ep(evs))
    return eps


def wmulti(g, n, cap=60):
    """A width tied to the length it extends."""
    return max(0, min(cap, g.choice([0, 1, n - 2, n - 1, n, n + 1, 2 * n - 3, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n - 2, 3 * n, 4 * n + 1, g.randint(0, 12)])))


def g_pad_far(g, count, modes=FLOATMODES, op=None):
    """Away from the usual sizes: many axes, long axes, widths around multiples of the length."""
    eps = []
    for i in range(count):
        m = modes[i % len(modes)]
        rank = g.choice([1, 1, 2, 3, 5, 6, 6, 7])
        s = [g.choice([1, 1, 1, 2]) for _ in range(rank)]
        a = g.choice([rank - 1, g.randrange(rank)])
        s[a] = g.choice([g.randint(1, 6), g.randint(6, 20)])
        sel = [a] + ([b for b in g.sample(range(rank), min(rank, 2)) if b != a][:1] if g.chance(.3) else [])
        if g.chance(.5):
            sel.reverse()
        ms = [m if b == a else g.choice(modes) for b in sel]
        ws = []
        for b in sel:
            w = (wmulti(g, s[b]), wmulti(g, s[b])) if b == a else widths(g, 2)
            ws.append(g.choice([w, w, (0, w[1]), (w[0], 0)]))
        dts = ["f8", "f4", "f4"] + (["i8", "i4"] if all(z in INTMODES for z in ms) else []) + (["u1"] if all(z in COPYDT for z in ms) else []) + ["f2"]
        dt = g.choice(dts)
        v = lambda: (g.randint(0, 9), g.randint(0, 9))
        x = g.tensor(s, dt)
        st = lambda: g.choice([None, 1, 2, 5, s[a] - 1, s[a], s[a] + 1])
        p = padder("p", ws if g.chance(.8) or len(sel) > 1 else ws[0], ms, v(), v(), (st(), st()))
        if op == "axis" or (op is None and g.chance(.25)):
            j = g.randrange(len(sel))
            evs = [ev("pad_axis", "p", {"i": j if g.chance(.5) else j - len(sel), "axis": sel[j] if g.chance(.5) else sel[j] - rank}, x=x, dt=dt)]
        else:
            evs = [pad_event(g, "p", x, [b if g.chance(.6) else b - rank for b in sel])]
        eps.append(ep([p] + evs))
    return eps


def g_pad_grid(g, modes):
    """Every mode, number of axes and side, on short and on long axes."""
    eps = []
    for m in modes:
        for rank in range(1, 8):
            for side in range(3):
                s = [g.choice([1, 1, 1, 2]) for _ in range(rank)]
                a = g.choice([rank - 1, g.randrange(rank)])
                s[a] = g.choice([g.randint(1, 6), g.randint(6, 12)]) if rank < 6 else g.choice([g.randint(2, 6), g.randint(7, 12)])
                w = (wmulti(g, s[a]), wmulti(g, s[a]))
                w = (max(1, w[0]), max(1, w[1]))
                w = [w, (w[0], 0), (0, w[1])][side]
                dt = g.choice(["f8", "f4"])
                v = lambda: (g.randint(0, 9), g.randint(0, 9))
                eps.append(ep(padder("p", [w], m, v(), v(), (None, g.randint(1, s[a]))), pad_event(g, "p", g.tensor(s, dt), [a if g.chance(.5) else a - rank])))
    return eps


def long_len(g, lo=30, hi=1500):
    """Lengths of every magnitude."""
    return int(lo * (hi / lo) ** g.random())


def g_pad_long(g, count, modes=FLOATMODES, op=None):
    """Axes, paddings and statistics of hundreds of samples."""
    eps = []
    for i in range(count):
        m = modes[i % len(modes)]
        rank = g.choice([1, 1, 2])
        s = [g.choice([1, 1, 2]) for _ in range(rank)]
        a = g.randrange(rank)
        s[a] = g.choice([g.randint(1, 6), long_len(g), long_len(g)])
        w = [g.choice([0, g.randint(1, 5), long_len(g), long_len(g)]) for _ in range(2)]
        if s[a] < 30 and max(w) < 30 or m in STATMODES and s[a] < 30:
            if m in STATMODES:
                s[a] = long_len(g)
            else:
                w[g.randrange(2)] = long_len(g)
        dt = g.choice(["f8", "f8", "f4"] + (["i8", "i4"] if m in INTMODES else []) + (["u1"] if m in COPYDT else []))
        if m in ("mean", "linear_ramp"):
            dt = "f8"
        st = lambda: g.choice([None, s[a], max(1, s[a] // 2), long_len(g), g.randint(1, 5)])
        p = padder("p", [tuple(w)], m, (g.randint(0, 9), g.randint(0, 9)), (g.randint(0, 9), g.randint(0, 9)), (st(), st()))
        x = g.tensor(s, dt, lim=9)
        ax = a if g.chance(.5) else a - rank
        eps.append(ep(p, ev("pad_axis", "p", {"i": -1, "axis": ax}, x=x, dt=dt) if op == "axis" or op is None and g.chance(.2) else pad_event(g, "p", x, [ax])))
    return eps


def g_mode_types(g):
    """Every mode with every element type it can work on, as a whole and on demand."""
    eps = []
    for m in FLOATMODES:
        for dt in ["f8", "f4", "f2", "b2"] + (["i8", "i4", "i2", "i1"] if m in INTMODES else []) + (["u1", "bool"] if m in COPYDT else []):
            s = g.choice([[3], [2, 3], [5, 1], [2, 1, 4]])
            x = g.tensor(s, dt, data=[g.randint(-3, 3) for _ in range(prod(s))] if dt == "i1" else None)
            v = (1, 0) if dt == "bool" else (3, 5)
            n = len(s)
            eps.append(ep(padder("p", widths(g, 4), m, v, v, (2, None)),
                          ev("pad", "p", x=x, ax=ALL, dt=dt),
                          ev("pad_axis", "p", {"i": 0, "axis": g.randrange(-n, n)}, x=x, dt=dt)))
    return eps


def C01(g, k):
    eps = g_pad(g, 450 * k) + g_pad_dtypes(g, 90 * k) + g_pad_far(g, 160 * k) + g_mode_types(g) + g_pad_long(g, len(FLOATMODES) * k)
    # one padder, several inputs, wide widths
    eps += g_pad(g, 120 * k, hi=14, shp=lambda g: g.shape(ranks=(1, 2), hi=4))
    # zero widths and unselected axes
    for _ in range(60 * k):
        s = g.shape(ranks=(2, 3, 4))
        sel = g.axlist(len(s))
        ws = [g.choice([(0, 0), (0, 0), widths(g, 3)]) for _ in sel]
        x = g.tensor(s, g.choice(["f8", "f4", "i4"]))
        eps.append(ep(padder("p", ws, [g.choice(INTMODES) for _ in sel]), pad_event(g, "p", x, sel)))
    # special values survive as the very same samples
    for m in INTMODES + ["linear_ramp", "mean"]:
        big = [Fr(2) ** 60, Fr(1, 2 ** 60), -Fr(2) ** 40, 0, 1, Fr(1, 3)]
        v = [float(z) for z in big]
        eps.append(ep(padder("p", (2, 1), m), pad_event(g, "p", tens([6], [Fr(z) for z in v], "f8", g.choice("cso")), [0])))
    return eps


def mode_values(g, k, modes, lens, W, every, cnt, wide):
    eps = g_pad_1d(g, modes, lens, W, every)
    eps += g_pad_dtypes(g, 80 * k, modes) + g_pad_far(g, 120 * k, modes) + g_pad_grid(g, modes) + g_pad_long(g, 8 * len(modes) * k, modes)
    for _ in range(25 * k):       # long signals
        m, n, dt = g.choice(modes), g.randint(12, 60), g.choice(["f8", "f4"])
        eps.append(ep(padder("p", (g.randint(0, 80), g.randint(0, 80)), m), ev("pad", "p", x=g.tensor([n], dt), ax=ALL, dt=dt)))
    eps += g_pad(g, cnt * k, modes, [m for m in modes if m in INTMODES] or ["zeros"], hi=4)
    for _ in range(wide * k):     # very wide, on a random axis
        m = g.choice(modes)
        dt = g.choice(["f8", "f4"] + (["i8"] if m in INTMODES else []))
        s = g.shape(ranks=(1, 1, 2, 3), hi=3)
        sel = [g.choice(range(-len(s), len(s)))]
        cv = (g.randint(-9, 9), g.randint(-9, 9))
        eps.append(ep(padder("p", (g.randint(0, 40), g.randint(0, 40)), m, cv, (Fr(g.randint(-9, 9), 2), g.randint(-9, 9)),
                             (g.choice([None, 1, 2]), g.choice([None, 1, 2]))),
                      pad_event(g, "p", g.tensor(s, dt), sel)))
    return eps


def C02(g, k):
    return mode_values(g, k, PADMODES, range(1, 7), 13 if k == 1 else 20, 8 if k == 1 else 1, 200, 60)


def C03(g, k):
    return mode_values(g, k, ODDMODES, range(1, 7), 13 if k == 1 else 20, 8 if k == 1 else 1, 200, 60)


def fills(g, k, modes, count):
    eps = []
    for _ in range(count * k):
        m = g.choice(modes)
        dt = g.choice(["f8", "f8", "f4"] + (["i8", "i4"] if m in INTMODES else []))
        s = g.shape(cap=80)
        n = len(s)
        sel = g.axlist(n)
        L = len(sel)
        ints = dt[0] == "i"
        v = lambda: (g.randint(-9, 9) if ints else g.dy(9))
        pr = lambda: (v(), v())
        plen = g.choice([L, L, max(1, L - 1), L + 1])
        P = lambda one: g.choice([one(), [one() for _ in range(plen)], tuple(one() for _ in range(plen))])
        mode = m if g.chance(.5) else [g.choice(modes if not ints else [z for z in modes if z in INTMODES]) for _ in range(plen)]
        sv = lambda: (g.choice([None, 1, 2, 3, 5, 9, 0]), g.choice([None, 1, 2, 3, 5, 9, 0]))
        c1 = g.random()
        cv = v() if c1 < .15 else P(pr)
        e_ = v() if g.chance(.15) else P(pr)
        sl = g.choice([None, 1, 2, 3]) if g.chance(.25) else P(sv)
        hi = fit(s, sel, 5)
        eps.append(ep(padder("p", g.choice([P(lambda: widths(g, hi)), g.randint(1, min(hi, 4))]), mode, cv, e_, sl),
                      pad_event(g, "p", g.tensor(s, dt), sel)))
    return eps


def C04(g, k):
    eps = fills(g, k, FILLMODES, 420) + g_pad_dtypes(g, 60 * k, FILLMODES) + g_pad_far(g, 100 * k, FILLMODES) + g_pad_grid(g, FILLMODES) + g_pad_long(g, 5 * len(FILLMODES) * k, FILLMODES)
    for m in FILLMODES:
        for n in range(1, 5):
            for b in range(0, 7):
                evs = []
                for a in range(0, 7):
                    if k == 1 and g.chance(.4):
                        continue
                    dt = g.choice(["f8", "f4"] if m == "linear_ramp" else ["f8", "f4", "i8"])
                    evs += [padder("p", (b, a), m, (g.randint(-9, 9), g.randint(-9, 9)), (g.randint(-9, 9), g.dy(9))),
                            ev("pad", "p", x=g.tensor([n], dt), ax=INT(0), dt=dt)]
                if evs:
                    eps.append(ep(evs))
    return eps


def C05(g, k):
    eps = fills(g, k, STATMODES, 350) + g_pad_dtypes(g, 60 * k, STATMODES) + g_pad_far(g, 100 * k, STATMODES) + g_pad_grid(g, STATMODES) + g_pad_long(g, 6 * len(STATMODES) * k, STATMODES)
    for m in STATMODES:
        for n in range(1, 7):
            for lb in [None, 0, 1, 2, 3, 4, 5, 6, 9]:
                evs = []
                for la in [None, 0, 1, 2, 3, 4, 5, 6, 9]:
                    if k == 1 and g.chance(.6):
                        continue
                    dt = g.choice(["f8", "f4"] if m == "mean" else ["f8", "f4", "i8"])
                    evs += [padder("p", widths(g, 3), m, 0, 0, (lb, la)),
                            ev("pad", "p", x=g.tensor([n], dt), ax=ALL, dt=dt)]
                if evs:
                    eps.append(ep(evs))
    return eps


def C06(g, k):
    eps = g_pad_far(g, 100 * k)
    for _ in range(430 * k):
        dt = g.choice(["f8", "f8", "f4", "i8"])
        s = g.shape(ranks=(2, 3, 3, 4), cap=60)
        n = len(s)
        sel = g.axlist(n, g.randint(2, n))
        p = rand_padder(g, "p", len(sel), INTMODES if dt[0] == "i" else FLOATMODES, hi=3,
                        plen=g.choice([len(sel), len(sel), 1, len(sel) - 1, len(sel) + 1, len(sel) + 2]))
        if dt[0] == "i":
            p["a"]["cv"] = tree((g.randint(-9, 9), g.randint(-9, 9)))
        x = g.tensor(s, dt)
        evs = [p, pad_event(g, "p", x, sel)]
        if g.chance(.3):    # the same axes written in another way
            evs.append(pad_event(g, "p", x, norms(n, sel)))
        eps.append(ep(evs))
    for _ in range(30 * k):     # the same axis more than once
        s = g.shape(ranks=(1, 2, 3), lo=2, hi=4, cap=30)
        sel = [g.choice(range(-len(s), len(s))) for _ in range(g.randint(2, 3))]
        p = rand_padder(g, "p", len(sel), [m for m in FLOATMODES if m not in ("periodize", "linear_ramp")], hi=3)
        eps.append(ep(p, ev("pad", "p", x=g.tensor(s, "f8"), ax=SEQ(*sel), dt="f8")))
    # default axes, None, slices
    for _ in range(80 * k):
        s = g.shape(ranks=(2, 3, 4), cap=50)
        p = rand_padder(g, "p", g.randint(1, 3), FLOATMODES, hi=3)
        n = len(s)
        ax = g.choice([ALL, CONTENT, SLICE(None, None, -1), SLICE(-2), SLICE(None, None, 2), SLICE(1, n), SLICE(0, 1), SLICE(None, -1),
                       SLICE(5), SEQ()])
        eps.append(ep(p, ev("pad", "p", x=g.tensor(s, "f8"), ax=ax, dt="f8", r={"noax": 1} if ax == CONTENT else None)))
    return eps


def C07(g, k):
    eps = g_pad_far(g, 120 * k, op="axis") + g_mode_types(g) + g_pad_long(g, len(FLOATMODES) * k, op="axis")
    for _ in range(450 * k):
        dt = g.choice(["f8", "f8", "f4", "i8"])
        s = g.shape(cap=60)
        n = len(s)
        m = g.randint(1, 4)
        p = rand_padder(g, "p", m, INTMODES if dt[0] == "i" else FLOATMODES, hi=5, plen=m)
        if dt[0] == "i":
            p["a"]["cv"] = tree((g.randint(-9, 9), g.randint(-9, 9)))
        x = g.tensor(s, dt)
        evs = [p]
        for _ in range(g.randint(1, 3)):
            a = g.randrange(-n, n)
            evs.append(ev("pad_axis", "p", {"i": g.randrange(-m, m), "axis": a}, x=x, dt=dt))
        if g.chance(.25):         # an index the padder has no parameters for
            evs.append(ev("pad_axis", "p", {"i": g.choice([m, -m - 1, m + 1, n + m]), "axis": g.randrange(-n, n)}, x=x))
        eps.append(ep(evs))
    for _ in range(150 * k):      # parameters of their own for every index, on any axis
        s = g.shape(ranks=(2, 3, 3, 4), cap=60)
        n, m = len(s), g.randint(2, 4)
        few = lambda f: [f() for _ in range(m)] if g.chance(.8) else f()
        two = lambda: (g.randint(-99, 99), g.randint(-99, 99))
        p = padder("p", few(lambda: widths(g, 4)), few(lambda: g.choice(FILLMODES + STATMODES)), few(two), few(two),
                   few(lambda: (g.choice([None, 1, 2, 3]), g.choice([None, 1, 2, 3]))))
        eps.append(ep([p] + [ev("pad_axis", "p", {"i": g.randrange(-m, m), "axis": g.randrange(-n, n)}, x=g.tensor(s, dt_), dt=dt_)
                             for dt_ in (g.choice(["f8", "f4"]) for _ in range(2))]))
    for m in FLOATMODES:       # against the whole-tensor padding, odd and even lengths
        for n in (1, 2, 3, 4, 5):
            w = widths(g, 4)
            x = g.tensor([2, n], "f8")
            eps.append(ep(padder("p", w, m, (1, 2), (3, 4), (2, None)),
                          ev("pad_axis", "p", {"i": 0, "axis": -1}, x=x, dt="f8"),
                          ev("pad_axis", "p", {"i": -1, "axis": 1}, x=x, dt="f8"),
                          ev("pad", "p", x=x, ax=INT(1), dt="f8")))
    return eps


# ---------------------------------------------------------------------------
# Specifications and nested data


def rand_leaf(g, kinds="ifnt"):
    c = g.choice(kinds)
    return g.randint(-20, 20) if c == "i" else g.dy(5) if c == "f" else None if c == "n" else g.choice(["a", "reflect", "xyz", ""])


def rand_tree(g, depth, ragged=True, uneven=False, dense_ok=True, kinds="iiift", empty=True):
    if depth == 0:
        return tree(rand_leaf(g, kinds))
    if dense_ok and depth <= 2 and g.chance(.2):
        return rand_dense(g, [g.randint(1, 3) for _ in range(depth)])
    n = g.choice([0, 1, 1, 2, 2, 3, 3, 4]) if empty else g.choice([1, 1, 2, 2, 3, 3, 4])
    d = [depth - 1 if not uneven or g.chance(.7) else g.randint(0, depth - 1) for _ in range(n)]
    kids = [rand_tree(g, x, ragged, uneven, dense_ok, kinds, empty) for x in d]
    if not ragged and kids:
        kids = [kids[0]] * 0 + [rand_like(g, kids[0]) for _ in kids]
    return {"k": g.choice("lu"), "c": kids}


def rand_like(g, t):
    if t["k"] in "int":
        return tree(rand_leaf(g, "ii"))
    if t["k"] in "aT":
        return t
    return {"k": g.choice("lu"), "c": [rand_like(g, x) for x in t["c"]]}


def rand_dense(g, shape):
    def vals(s):
        return [g.randint(-9, 9) if len(s) == 1 else vals(s[1:]) for _ in range(s[0])]
    return dense(vals(shape), shape, g.choice("aT"))


def small_trees(depth, width, leaf):
    """All trees of the given depth with up to width children per node."""
    if depth == 0:
        return [tree(leaf)]
    import itertools
    out = [tree(leaf)]
    sub = small_trees(depth - 1, width, leaf)
    for n in range(width + 1):
        for c in itertools.product(sub, repeat=n):
            out.append({"k": "l" if n % 2 else "u", "c": list(c)})
    return out


def relabel(t, c):
    """Give the leaves distinct numbers."""
    if t["k"] == "i":
        c[0] += 1
        return num(c[0])
    if t["k"] in "nt":
        return t
    return dict(t, c=[relabel(x, c) for x in t["c"]])


def C08(g, k):
    eps = []
    items = [[], [2], [-1], [3], [2, 2], [-1, 2], [1], [-1, -1], [2, -1]]

    def one(t, item, r=None, index=None):
        evs = [ev("spec.new", "s", {"t": t, "item": item} if index is None else {"t": t, "item": item, "index": index}, r=r), ev("spec.iter", "s")]
        for i in g.sample([-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8], 6):
            evs.append(ev("spec.get", "s", {"path": [i]}))
        if g.chance(.5):
            evs.append(ev("spec.get", "s", {"path": [g.randint(-2, 2)]}, r={"int": False}))
        if g.chance(.4):
            evs.append(ev("spec.get", "s", {"path": [g.randint(-2, 2), g.randint(-2, 2)]}))
        if g.chance(.3):
            evs += [ev("spec.copy", "c", {"src": "s"}), ev("spec.iter", "c"), ev("spec.get", "c", {"path": [g.randint(-3, 3)]})]
        return ep(evs)

    trees = [relabel(t, [0]) for t in small_trees(2, 3, 0)]
    g.shuffle(trees)
    for t in trees[:150 if k == 1 else len(trees)]:
        item = g.choice(items)
        eps.append(one(t, item, {"defitem": 1} if item == [] and g.chance(.5) else None))
    for _ in range(180 * k):
        t = rand_tree(g, g.randint(0, 3), ragged=g.chance(.5), uneven=g.chance(.25))
        eps.append(one(t, g.choice(items)))
        if g.chance(.4):        # the index shape given: lengths as they are, free, or wrong
            w, node = [], t
            while node["k"] not in "int" and node.get("c") and len(w) < 3 and g.chance(.8):
                w.append(g.choice([len(node["c"])] * 3 + [-1] * 3 + [1, len(node["c"]) + 1]))
                node = node["c"][0]
            eps.append(one(t, g.choice(items), None, w + g.choice([[]] * 6 + [[2], [-1]])))
    for _ in range(25 * k):     # long lists of items
        n = g.randint(6, 24)
        item = g.choice([[], [2], [-1], [3]])
        it = lambda: num(g.randint(-99, 99)) if not item else {"k": g.choice("lu"), "c": [num(g.randint(-9, 9)) for _ in range(item[0] if item[0] > 0 else g.randint(1, 5))]}
        t = {"k": g.choice("lu"), "c": [it() for _ in range(n)]}
        evs = [ev("spec.new", "s", {"t": t, "item": item}), ev("spec.iter", "s")]
        evs += [ev("spec.get", "s", {"path": [i]}) for i in (-n - 1, -n, 1 - n, n // 2, n - 2, n - 1, n, 2 * n, g.randint(-n, n - 1))]
        eps.append(ep(evs))
    for _ in range(60 * k):     # given items come back as the same objects
        item = g.choice([[], [2], [-1], [3]])
        n = g.randint(1, 4)
        w = item[0] if item and item[0] > 0 else None
        leaf = lambda: tree(rand_leaf(g, "it"))
        one_ = lambda: leaf() if not item else {"k": g.choice("lu"), "c": [leaf() for _ in range(w or g.randint(1, 4))]}
        t = one_() if g.chance(.3) else {"k": g.choice("lu"), "c": [one_() for _ in range(n)]}
        eps.append(ep(ev("spec.same", "s", {"t": t, "item": item})))
    return eps


def rand_spec(g, id, ishape, item, kinds=False):
    """A specification with the given index shape (list) and item shape."""
    def build(s, kind):
        if not s:
            if kinds:
                return g.choice([{"k": "i", "v": 1}, {"k": "i", "v": 1, "f": 1}, {"k": "i", "v": 1, "b": 1}, {"k": "i", "v": 0}, {"k": "i", "v": 0, "f": 1},
                                 {"k": "i", "v": 0, "b": 1}, {"k": "i", "v": 3}, {"k": "n", "v": 0}, {"k": "t", "v": "one"}, {"k": "t", "v": "None"}])
            return tree(rand_leaf(g, "iiif" if kind else "ii"))
        n = s[0] if s[0] >= 0 else g.randint(1, 3)
        return {"k": g.choice("lu"), "c": [build(s[1:], kind) for _ in range(n)]}
    return ev("spec.new", id, {"t": build(list(ishape) + list(item), 1), "item": list(item)})


def C09(g, k):
    eps = []
    for _ in range(420 * k):
        item = g.choice([[], [2], [-1], [2, 2]])
        shape = g.choice([[], [1], [2], [3], [4], [2, 2], [1, 3], [3, 2]] + [[g.randint(5, 12)]] * 1)
        m = g.choice([1, 2, 3, 3, 4, 5])
        evs = []
        ids, deep = [], []
        for j in range(m):
            sh = shape if g.chance(.65) else []
            if g.chance(.12):
                sh = g.choice([[2], [3], [5], [2, 3]])
            it = item if g.chance(.6) else g.choice([[], [2], [-1]])
            evs.append(rand_spec(g, "s%d" % j, sh, it))
            ids.append("s%d" % j)
            deep += ["s%d" % j] * (it != [])
        base = list(ids)
        for t in range(g.randint(1, 3)):
            id = "r%d" % t
            op = g.choice(["spec.map", "spec.starmap", "spec.apply", "spec.zip", "spec.agg", "spec.apply"])
            src = g.choice(base)
            two_d = len(shape) > 1
            if op == "spec.map":
                fn = g.choice(["neg", "sum", "dup", "tup", "none"] if not two_d else ["sum", "neg", "dup"])
                evs.append(ev(op, id, {"src": src, "fn": fn}))
            elif op == "spec.starmap":
                if not deep:
                    continue
                src = g.choice(deep)
                evs.append(ev(op, id, {"src": src, "fn": g.choice(["sum", "rev", "tup", "last", "count", "pairs"])}))
            elif op == "spec.agg":
                evs.append(ev(op, "", {"ids": [g.choice(base) for _ in range(g.randint(1, 3))]}))
                if g.chance(.4):
                    evs[-1]["a"]["allowed"] = g.choice([[0, 1], [1], [0], [0, 2], [1, 2], [0, 1, 2]])
                continue
            else:
                use = [g.choice(base) for _ in range(g.randint(1, 3))] if g.chance(.4) else list(ids)
                fn = g.choice(["sum", "tup", "rev", "last", "count", "dup", "neg", "none", "pairs"] if not two_d else ["sum", "count"])
                evs.append(ev(op, id, {"ids": use, "fn": fn} if op == "spec.apply" else {"ids": use}))
            for i in (-1, 0, g.randint(0, 3)):
                evs.append(ev("spec.get", id, {"path": [i]}))
            evs.append(ev("spec.iter", id))
        for j in ids:       # the operands afterwards
            evs.append(ev("spec.iter", j))
        eps.append(ep(evs))
    for _ in range(24 * k):     # items that are equal though of different kinds
        n, m = g.randint(1, 6), g.randint(1, 3)
        evs = [rand_spec(g, "s%d" % j, [n] if g.chance(.8) else [], [], True) for j in range(m)]
        ids = ["s%d" % j for j in range(m)]
        op, fn = g.choice(["spec.map", "spec.apply"]), g.choice(["kind", "kind", "tup"])
        evs += [ev(op, "r", {"src": ids[0], "fn": fn} if op == "spec.map" else {"ids": ids, "fn": fn}), ev("spec.iter", "r"), ev("spec.apply", "q", {"ids": ids[::-1], "fn": "kind"}), ev("spec.iter", "q")]
        eps.append(ep(evs))
    return eps


def C10(g, k):
    eps = []
    trees = [relabel(t, [0]) for t in small_trees(2, 3, 0)]
    g.shuffle(trees)
    n = 0
    batch = []
    for t in trees[:200 if k == 1 else len(trees)]:
        for strict in (True, False):
            batch.append(ev("shape", "", {"t": t, "strict": strict}))
        for _ in range(2):
            new = [g.choice([-1, -1, 1, 2, 3]) for _ in range(g.randint(0, 3))]
            batch.append(ev("expand", "", {"t": t, "new": new}))
    for _ in range(250 * k):
        t = rand_tree(g, g.randint(0, 4), ragged=g.chance(.6), uneven=g.chance(.45))
        for strict in (True, False):
            batch.append(ev("shape", "", {"t": t, "strict": strict}))
        t = rand_tree(g, g.randint(0, 3), ragged=g.chance(.6), uneven=g.chance(.2), empty=g.chance(.2))
        new = [g.choice([-1, -1, 1, 2, 3]) for _ in range(g.randint(0, 4))]
        batch.append(ev("expand", "", {"t": t, "new": new}))
        # a target made to fit: singleton levels repeated
        d = g.randint(1, 3)
        s = [g.choice([1, 1, 2, 3]) for _ in range(d)]
        u = fixed(g, s)
        new = [g.choice([-1, v if v > 1 else g.randint(1, 4)]) for v in s]
        lead = [g.randint(1, 3) for _ in range(g.randint(0, 2))]
        batch.append(ev("expand", "", {"t": u, "new": (lead + new)[g.choice([0, 0, 1]):]}))
        if g.chance(.4):
            batch.append(ev("rmap", "", {"t": u, "depth": g.randint(-1, d), "fn": g.choice(["neg", "dup", "sum", "tup"])}))
    # every pattern of singleton / uniform / ragged levels, expanded wherever it may be
    import itertools
    for d in range(1, 5):
        for kinds in itertools.product("sur", repeat=d):
            for _ in range((2 if d < 4 else 1) * (1 if k == 1 else 3)):
                u, sizes = levelled(g, kinds)
                new = [g.choice([-1, 1, 2, 3]) if c == "s" else g.choice([-1, -1, n]) if c == "u" else -1 for c, n in zip(kinds, sizes)]
                lead = [g.randint(1, 3) for _ in range(g.choice([0, 0, 0, 1, 2]))]
                if g.chance(.1):
                    new[g.randrange(d)] = g.randint(1, 4)
                drop = 0
                while drop < d - 1 and g.chance(.15):
                    drop += 1
                batch.append(ev("expand", "", {"t": u, "new": lead + new if not drop else new[drop:]}))
                batch.append(ev("shape", "", {"t": u, "strict": g.chance(.5)}))
    for i in range(0, len(batch), 12):
        eps.append(ep(batch[i:i + 12]))
    return eps


def levelled(g, kinds):
    """Nested data whose levels are singleton ("s"), uniform ("u") or ragged ("r"); and the uniform lengths."""
    c = [0]
    sizes = [1 if q == "s" else g.randint(2, 3) for q in kinds]

    def b(i):
        if i == len(kinds):
            c[0] += 1
            return num(c[0])
        n = sizes[i] if kinds[i] != "r" else g.randint(1, 3)
        return {"k": g.choice("lu"), "c": [b(i + 1) for _ in range(n)]}
    return b(0), sizes


def fixed(g, s):
    c = [0]

    def b(s):
        if not s:
            c[0] += 1
            return num(c[0])
        return {"k": g.choice("lu"), "c": [b(s[1:]) for _ in range(s[0])]}
    return b(s)


# ---------------------------------------------------------------------------
# Pooling

def kern(g, n, dt="f8"):
    return [g.dy(4, (1, 1, 2, 4)) for _ in range(n)]


def pool_layer(g, id, L, pad, cls=None, hi=5, stride=None, single=None, sizes=None):
    """A pooling layer for L axes.  Returns (event, kernel sizes per axis)."""
    cls = cls or g.choice(["SeparablePoolNd", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd"])
    single = g.chance(.4) if single is None else single
    lo = 0 if cls == "SeparablePoolNd" and g.chance(.3) else 1
    ks = [g.randint(lo, hi) for _ in range(1 if single else L)]
    if sizes:
        ks = sizes[:1] if single else sizes
    st = stride
    omit = []
    if st is None:
        c = g.random()
        if c < .25:
            st, omit = None, ["stride"]
        elif c < .5:
            st = g.randint(1, 4)
        elif c < .6:
            st = [None if g.chance(.3) else g.randint(1, 4) for _ in range(L)]
        else:
            st = [g.randint(1, 4) for _ in range(L)]
        if isinstance(st, list) and g.chance(.3):
            st = tuple(st)
    a = {"pad": pad, "stride": tree(st)}
    if cls == "SeparablePoolNd":
        kl = [kern(g, n) for n in ks]
        if single and g.chance(.7) and not isinstance(st, (list, tuple)):
            a["kernel"] = tree(kl[0])
        elif single:
            a["kernel"] = tree(kl[0])
        else:
            a["kernel"] = tree(g.choice([list, tuple])(kl))
        if single and ks[0] == 0:
            a["kernel"] = tree(())
            # the whole layer is the identity
    else:
        a["ks"] = tree(ks[0] if single else g.choice([list, tuple])(ks))
        if cls == "GaussianPoolNd":
            sg = lambda: g.choice([Fr(1, 2), Fr(3, 4), 1, Fr(3, 2), 2])
            m = g.random()
            a["sigma"] = tree(sg() if single or m < .5 else [sg() for _ in range(L)])
            a["order"] = tree(0 if g.chance(.6) else g.randint(0, 3) if single or g.chance(.5) else [g.randint(0, 3) for _ in range(L)])
        else:
            a["cip"] = True
    return ev(cls, id, a, r={"omit": omit} if omit else None), (ks * L if single else ks), cls


PADARGS = ["replicate", "circular", "periodize", "symmetric", "reflect", "antisymmetric", "odd_reflect", "odd_symmetric", "smooth",
           "zeros", "constant", "maximum", "minimum", "mean", "median", "linear_ramp"]


def pad_choice(g, p_none=.4):
    return NOPAD if g.chance(p_none) else pstr(g.choice(PADARGS))


def pool_event(g, id, x, sel, op="pool", ct=None):
    n = len(x["s"])
    r = {}
    ax = g.axarg(n, sel)
    if norms(n, sel) == list(range(2, n)) and g.chance(.7):
        ax, r["noax"] = CONTENT, 1
    if ax["k"] == "seq" and g.chance(.4):
        r["axt"] = "list"
    return ev(op, id, {"z": 0}, x=x, ax=ax, dt=x["dt"], ct=ct, r=r)


def layer_padder(g, id, L):
    """A padder for a layer on L axes: its widths are overridden, however many they are."""
    pw = g.choice([g.randint(0, 3), 0, (1, 2), [widths(g, 3) for _ in range(g.randint(1, 4))]])
    two = lambda: (g.randint(-3, 3), g.randint(-3, 3))
    m = len(pw) if isinstance(pw, list) else 0
    ls = m in (0, L)       # other parameters per axis, where their number agrees
    many = lambda f: [f() for _ in range(L)] if ls and g.chance(.4) else f()
    return padder(id, pw, many(lambda: g.choice(PADARGS)), many(two), many(two), many(lambda: (g.choice([None, 1, 2]), 2)))


def pool_eps(g, count, cls=None, p_none=.4, hi=5, stride=None, cap=70):
    eps = []
    for _ in range(count):
        s = g.shape(ranks=(1, 2, 2, 3, 3, 4), hi=7, cap=cap)
        n = len(s)
        sel = g.axlist(n)
        pad = pad_choice(g, p_none)
        evs = []
        if g.chance(.25) and pad["k"] == "str":
            evs.append(layer_padder(g, "pp", len(sel)))
            pad = pref("pp")
        if pad["k"] == "none" and g.chance(.7):
            s = [max(v, g.randint(3, 7)) if i in norms(n, sel) else v for i, v in enumerate(s)]
            if prod(s) > 250:
                s = [min(v, 4) for v in s]
        layer, ks, c = pool_layer(g, "f", len(sel), pad, cls, hi=min(hi, 3) if pad["k"] == "none" and max(s) < 5 else hi, stride=stride)
        evs.append(layer)
        if g.chance(.2):
            evs.append(ev("to_filter", "f", {"pad": NOPAD if g.chance(.5) else pstr(g.choice(PADARGS))}))
        x = g.tensor(s, g.choice(["f8", "f8", "f4"]), lim=8)
        evs.append(pool_event(g, "f", x, sel))
        eps.append(ep(evs))
    return eps


def C11(g, k):
    eps, b = [], []
    for kk in range(0, 10):
        for st in [None, 1, 2, 3, 4, 5, 7]:
            for n in [None] + list(range(1, 14)):
                if k == 1 and g.chance(.35):
                    continue
                b.append(ev("same_width", "", {"k": kk, "s": [] if st is None else [st], "n": [] if n is None else [n]}))
    for i in range(0, len(b), 20):
        eps.append(ep(b[i:i + 20]))
    b = [ev("same_width", "", {"k": kk, "s": [st], "n": [n]}) for kk, st, n in
         [(g.randint(1, 60), g.randint(1, 25), g.randint(1, 120)) for _ in range(150 * k)]]
    for i in range(0, len(b), 20):
        eps.append(ep(b[i:i + 20]))
    eps += big_pools(g, 30 * k, pads=True)
    # re-targeting, then padding with the new widths
    for _ in range(140 * k):
        s = g.shape(cap=60)
        n = len(s)
        sel = g.axlist(n)
        L = len(sel)
        lst = lambda f: g.choice([f(), [f() for _ in range(L)], tuple(f() for _ in range(L))])
        ks = lst(lambda: g.randint(1, 6))
        st = 1 if g.chance(.4) else lst(lambda: g.choice([1, 2, 3, None]))
        sz = [s[a] for a in norms(n, sel)]
        omit = []
        if st == 1 and g.chance(.5):
            omit = g.choice([["st"], ["sz"], ["st", "sz"]])
            if "sz" in omit:
                sz = None
        evs = [layer_padder(g, "p", L),
               ev("to_same", "p", {"ks": tree(ks), "st": tree(st), "sz": tree(sz)}, r={"omit": omit} if omit else None)]
        evs.append(pad_event(g, "p", g.tensor(s, "f8"), sel))
        if g.chance(.4):
            evs += [ev("to_same", "p", {"ks": tree(g.randint(1, 5)), "st": tree(1), "sz": NONE}), pad_event(g, "p", g.tensor(s, "f8"), sel)]
        eps.append(ep(evs))
    # layers: ceil(n/s) outputs on every processed axis, every mode
    for _ in range(330 * k):
        s = g.shape(ranks=(1, 1, 2, 3), hi=8, cap=60)
        sel = g.axlist(len(s), min(len(s), g.randint(1, 2)))
        evs, pad = [], pstr(g.choice(PADARGS))
        if g.chance(.3):
            evs, pad = [layer_padder(g, "pp", len(sel))], pref("pp")
        layer, ks, c = pool_layer(g, "f", len(sel), pad, hi=7, stride=1 if g.chance(.3) else None)
        evs.append(layer)
        if g.chance(.3):
            evs.append(ev("to_filter", "f", {"pad": NOPAD}))
        evs.append(pool_event(g, "f", g.tensor(s, g.choice(["f8", "f4"]), lim=6), sel))
        eps.append(ep(evs))
    for _ in range(40 * k):       # filters keep the shape
        s = g.shape(ranks=(2, 3, 4), hi=6, cap=60)
        sel = g.axlist(len(s), 2)
        o = g.choice([ev("Sobel", "e", {"norm": g.chance(.5), "pad": DEFPAD}), ev("Laplace", "e", {"pad": DEFPAD}),
                      ev("Farid", "e", {"norm": False, "pad": pstr(g.choice(PADARGS))})])
        r = {"fwd": 1} if o["op"] == "Laplace" else None
        eps.append(ep(o, ev("magnitude", "e", {"eps": 0, "p": 1}, x=g.tensor(s, "f8", lim=4), ax=SEQ(*sel), dt="f8", r=r)))
    return eps


def big_pools(g, count, pads=False, cls=None):
    """Kernels and strides much larger than usual, also larger than the (padded) axis' needs."""
    eps = []
    for _ in range(count):
        two = g.chance(.35)
        s = [g.randint(1, 20)] if not two else [g.randint(1, 9), g.randint(1, 9)]
        c = cls or g.choice(["SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd"])
        ks = [g.randint(5, 16) if g.chance(.7) else g.randint(1, 4) for _ in s]
        st = g.choice([1, None, g.randint(5, 12), [g.choice([1, 2, 5, 9]) for _ in s]])
        pad = pstr(g.choice(PADARGS)) if pads or g.chance(.5) else NOPAD
        if pad == NOPAD:
            s = [max(v, z) for v, z in zip(s, ks)]
        a = {"stride": tree(st), "pad": pad}
        if c == "SeparablePoolNd":
            a["kernel"] = tree([kern(g, z) for z in ks])
        elif c == "AvgPoolNd":
            a.update(ks=tree(ks), cip=True)
        else:
            a.update(ks=tree(ks), sigma=tree(g.choice([1, 2, 3, Fr(1, 2)])), order=tree(g.choice([0, 0, 1, 2])))
        sel = g.axlist(len(s), len(s))
        eps.append(ep(ev(c, "f", a), pool_event(g, "f", g.tensor(s, g.choice(["f8", "f4"]), lim=5), sel)))
    return eps


def C12(g, k):
    eps = pool_eps(g, 400 * k) + big_pools(g, 50 * k)
    # a list is matched to the axes in the listed order
    for _ in range(80 * k):
        s = g.shape(ranks=(2, 3), lo=3, hi=6, cap=80)
        sel = g.axlist(len(s), 2)
        kl = [kern(g, g.randint(0, 3)) for _ in sel]
        st = g.choice([None, 1, 2, [1, 2], [2, 1], [3, 1], [None, 2]])
        eps.append(ep(ev("SeparablePoolNd", "f", {"kernel": tree(kl), "stride": tree(st), "pad": pad_choice(g, .5)}),
                      pool_event(g, "f", g.tensor(s, "f8"), sel)))
    for _ in range(30 * k):     # the same axis more than once
        s = g.shape(ranks=(1, 2, 3), lo=4, hi=8, cap=80)
        sel = [g.choice(range(-len(s), len(s))) for _ in range(g.randint(2, 3))]
        kl = kern(g, g.randint(0, 3)) if g.chance(.3) else [kern(g, g.randint(0, 3)) for _ in sel]
        eps.append(ep(ev("SeparablePoolNd", "f", {"kernel": tree(kl), "stride": tree(g.choice([1, 1, 2, [g.choice([1, 2]) for _ in sel]])), "pad": pad_choice(g, .4)}),
                      ev("pool", "f", x=g.tensor(s, "f8"), ax=SEQ(*sel), dt="f8")))
    # array-valued kernels
    for _ in range(30 * k):
        s = g.shape(ranks=(2, 3), lo=3, hi=5, cap=80)
        n = g.randint(1, 3)
        eps.append(ep(ev("SeparablePoolNd", "f", {"kernel": dense([g.randint(-4, 4) for _ in range(n)], [n], g.choice("aT")),
                                                  "stride": tree(g.choice([None, 1, 2])), "pad": pad_choice(g, .5)}),
                      pool_event(g, "f", g.tensor(s, "f8"), g.axlist(len(s)))))
    return eps


def avg(g, id, ks, st, cip, pad, omit=None):
    return ev("AvgPoolNd", id, {"ks": tree(ks), "stride": tree(st), "cip": cip, "pad": pad}, r={"omit": omit} if omit else None)


def C13(g, k):
    eps = []
    for _ in range(450 * k):
        s = g.shape(ranks=(1, 2, 2, 3, 4), hi=7, cap=90)
        n = len(s)
        sel = g.axlist(n)
        L = len(sel)
        ks = g.randint(1, 6) if g.chance(.35) else g.choice([list, tuple])(g.randint(1, 5) for _ in sel)
        st = g.choice([None, 1, 2, 3, 4]) if g.chance(.6) else [g.choice([1, 2, 3, None]) for _ in sel]
        cip = g.chance(.35)
        if cip:
            pad = pad_choice(g, .3)
        else:
            pad = g.choice([NOPAD, pstr("zeros"), pstr("zeros"), pstr("constant"), pref("z")])
        evs = []
        if pad == pref("z"):
            evs.append(padder("z", 0, g.choice(["zeros", "constant"])))
        if pad == NOPAD:
            s = [min(5, max(v, 3)) if i in norms(n, sel) else min(v, 3) for i, v in enumerate(s)]
            ks = g.randint(1, 3) if isinstance(ks, int) else [g.randint(1, 3) for _ in ks]
        evs.append(avg(g, "f", ks, st, cip, pad, ["cip"] if cip and g.chance(.5) else None))
        if g.chance(.25):
            evs.append(ev("to_filter", "f", {"pad": NOPAD}))
        for _ in range(g.choice([1, 1, 2])):
            evs.append(pool_event(g, "f", g.tensor(s, g.choice(["f8", "f8", "f4"])), sel))
            if not isinstance(ks, int) or isinstance(st, list):
                break
            sel = g.axlist(n)
            if pad == NOPAD:
                break
        eps.append(ep(evs))
    for _ in range(45 * k):    # large windows and strides
        s = [g.randint(1, 24)] if g.chance(.6) else [g.randint(1, 9), g.randint(1, 9)]
        ks = [g.randint(4, 15) for _ in s]
        st = g.choice([None, 1, g.randint(3, 14), [g.randint(1, 9) for _ in s]])
        eps.append(ep(avg(g, "f", ks if g.chance(.7) else ks[0], st, g.chance(.2), pstr(g.choice(["zeros", "constant"]))),
                      pool_event(g, "f", g.tensor(s, g.choice(["f8", "f4"])), g.axlist(len(s), len(s)))))
    for n in range(1, 9):      # 1-d, all sizes
        evs = []
        for kk in range(1, 7):
            for st in range(1, 6):
                if k == 1 and g.chance(.5):
                    continue
                evs += [avg(g, "f", kk, st, g.chance(.2), pstr(g.choice(["zeros", "constant"]))),
                        ev("pool", "f", x=g.tensor([n], "f8"), ax=INT(0), dt="f8")]
        for i in range(0, len(evs), 10):
            eps.append(ep(evs[i:i + 10]))
    return eps


def C14(g, k):
    eps, b = [], []
    sig = [Fr(1, 4), Fr(1, 2), Fr(3, 4), 1, Fr(5, 4), Fr(3, 2), 2, 3, 5]
    for ks in range(1, 14 if k == 1 else 22):
        for order in range(0, 5):
            for sg in sig:
                if k == 1 and g.chance(.5):
                    continue
                if order >= 3 and sg < Fr(1, 2):
                    continue
                b.append(ev("gk", "", {"ks": ks, "sigma": q(sg), "order": order}))
    for _ in range(16 * k):
        b.append(ev("gk", "", {"ks": g.randint(1, 9), "sigma": q(g.choice([Fr(1, 16), Fr(1, 32), Fr(1, 11), Fr(1, 128), 40, 300, 5000])), "order": g.choice([0, 0, 1, 2])}))
        b.append(ev("gk", "", {"ks": g.randint(14, 41), "sigma": q(g.choice([1, 2, 4, 7, Fr(9, 4), 12])), "order": g.choice([0, 0, 1, 2, 3])}))
    for i in range(0, len(b), 10):
        eps.append(ep(b[i:i + 10]))
    for _ in range(4 * k):      # very long kernels
        eps.append(ep(ev("gk", "", {"ks": g.choice([g.randint(60, 300), g.randint(300, 520)]), "sigma": q(g.choice([6, 12, 30, 45, 60, 100])), "order": g.choice([0, 1, 2])})))
    eps += pool_eps(g, 170 * k, cls="GaussianPoolNd", hi=5) + big_pools(g, 25 * k, cls="GaussianPoolNd")
    return eps


def C15(g, k):
    eps, b = [], []
    W = 5 if k == 1 else 8
    for n in range(1, 7):
        for pb in range(0, W + 1):
            for pa in range(0, W + 1):
                for kk in range(1, 6):
                    for st in range(1, 5):
                        if k == 1 and g.chance(.6):
                            continue
                        b.append(ev("cov1", "", {"n": n, "pb": pb, "pa": pa, "k": kk, "s": st}))
    for _ in range(300 * k):
        b.append(ev("cov1", "", {"n": g.randint(1, 12), "pb": g.randint(0, 20), "pa": g.randint(0, 20), "k": g.randint(1, 12), "s": g.randint(1, 9)}))
    for _ in range(400 * k):
        d, kk = g.randint(1, 4), g.randint(1, 7)
        n = max(1, d * (kk - 1) + 1 + g.randint(-3, 12))
        b.append(ev("conv_1d", "", {"n": n, "k": kk, "s": g.randint(1, 5), "d": d}))
    for _ in range(150 * k):
        L = g.randint(1, 4)
        P = lambda lo, hi: g.choice([g.randint(lo, hi), g.choice([list, tuple])(g.randint(lo, hi) for _ in range(L))])
        b.append(ev("conv_nd", "", {"n": tree(P(12, 25)), "k": tree(P(1, 5)), "s": tree(P(1, 4)), "d": tree(P(1, 2))}))
    for _ in range(60 * k):
        b.append(ev("cov1", "", {"n": g.randint(1, 60), "pb": g.randint(0, 60), "pa": g.randint(0, 60), "k": g.randint(1, 40), "s": g.randint(1, 30)}))
        d, kk = g.randint(1, 12), g.randint(1, 30)
        b.append(ev("conv_1d", "", {"n": d * (kk - 1) + 1 + g.randint(0, 200), "k": kk, "s": g.randint(1, 25), "d": d}))
    for _ in range(130 * k):
        L = g.choice([1, 2, 3, 3, 4])
        n = [g.randint(1, 6 if L < 4 else 3) for _ in range(L)]
        pw = g.choice([[widths(g, 3) for _ in range(L)], widths(g, 3), g.randint(0, 3)])
        kk = g.choice([g.randint(1, 4), [g.randint(1, 4) for _ in range(L)]])
        st = g.choice([g.randint(1, 3), [g.randint(1, 3) for _ in range(L)]])
        dt = g.choice(["i4", "i8", "f8", "f4"])
        b.append(ev("covn", "", {"n": tree(n), "pw": tree(pw), "k": tree(kk), "s": tree(st)}, dt=dt, r={"dt": dt} if dt != "i4" else None))
    for i in range(0, len(b), 25):
        eps.append(ep(b[i:i + 25]))
    return eps


def C16(g, k):
    eps = []
    for _ in range(500 * k):
        s = g.shape(hi=7, cap=150)
        n = len(s)
        d = g.randrange(-n, n)
        dil = g.choice([1, 1, 2, 3])
        kk = g.randint(1, 4)
        need = dil * (kk - 1) + 1
        if s[d] < need and g.chance(.97):
            s[d] = need + g.randint(0, 3)
        x = g.tensor(s, g.choice(["f8", "f8", "f4"]))
        eps.append(ep(ev("conv1", "", {"w": qs(kern(g, kk)), "dim": d, "stride": g.randint(1, 4), "dil": dil}, x=x, dt=x["dt"])))
    for _ in range(150 * k):        # long kernels, wide dilations and strides
        dil, kk = g.choice([(g.randint(1, 9), g.randint(1, 12)), (g.randint(1, 9), g.randint(1, 12)), (g.randint(1, 4), g.randint(13, 80))])
        n = g.choice([1, 2, 2, 3, 4])
        s = [g.choice([1, 1, 2, 3]) for _ in range(n)]
        d = g.choice([g.randrange(-n, n), -1, n - 1])
        s[d] = dil * (kk - 1) + 1 + g.randint(0, 14)
        if prod(s) > 400:
            s = [s[d % n] if i == d % n else 1 for i in range(n)]
        x = g.tensor(s, g.choice(["f8", "f4"]))
        eps.append(ep(ev("conv1", "", {"w": qs(kern(g, kk)), "dim": d, "stride": g.randint(1, 11), "dil": dil}, x=x, dt=x["dt"])))
    return eps


# ---------------------------------------------------------------------------
# Filters

def edge_obj(g, id, L=2):
    """A random edge filter.  Returns its constructor event."""
    pad = g.choice([DEFPAD, DEFPAD, NOPAD, pstr(g.choice(PADARGS))])
    c = g.choice(["Sobel", "Prewitt", "Scharr", "Farid", "GaussianGrad", "EdgeFilter", "EdgeFilter", "Sobel", "GaussianGrad"])
    norm = g.chance(.5)
    if c == "GaussianGrad":
        a = {"ks": tree(g.choice([1, 3, 5, 3, 4, 7])), "sigma": tree(g.choice([Fr(1, 2), 1, Fr(3, 2)])), "eks": [], "esg": [], "norm": norm,
             "order": g.choice([0, 1, 1, 1, 2, 3]), "pad": pad}
        if g.chance(.3):
            a["eks"] = [g.choice([3, 5])]
        if g.chance(.3):
            a["esg"] = [q(g.choice([Fr(3, 4), 1, 2]))]
        if L > 2 and g.chance(.4):
            a["ks"] = tree([g.choice([1, 3, 5]) for _ in range(L - 1)])
            a["eks"] = [3]
        return ev(c, id, a)
    if c == "EdgeFilter":
        if pad == DEFPAD:
            pad = NOPAD
        e = g.choice([[-1, 0, 1], [1, -2, 1], (-1, 0, 1), [Fr(-1, 2), 0, Fr(1, 2)], kern(g, g.randint(1, 4)), [1, 0, -1], [-1, 1],
                      [-1, 0, 2], [1, -2, Fr(1, 2)]])
        sm = g.choice([[1, 2, 1], [1, 1], (), [3], [g.randint(1, 5) for _ in range(g.randint(1, 4))], [Fr(1, 4), Fr(1, 2), Fr(1, 4)]])
        if len(sm) == 0:
            norm = False
        if L > 2 and g.chance(.3):
            sm = [[g.randint(1, 5) for _ in range(g.randint(1, 3))] for _ in range(L - 1)]
        return ev(c, id, {"edge": tree(e), "smooth": tree(sm), "norm": norm, "pad": pad})
    return ev(c, id, {"norm": norm, "pad": pad}, r={"defnorm": 1} if not norm and g.chance(.5) else None)


def lap_obj(g, id):
    pad = g.choice([DEFPAD, DEFPAD, NOPAD, pstr(g.choice(PADARGS))])
    if g.chance(.5):
        return ev("Laplace", id, {"pad": pad})
    if pad == NOPAD:
        pad = DEFPAD
    return ev("LoG", id, {"ks": tree(g.choice([3, 5, 7])), "sigma": tree(g.choice([Fr(1, 2), 1, Fr(3, 2)])), "pad": pad})


def C17(g, k):
    eps = []
    for _ in range(330 * k):
        L = g.choice([2, 2, 2, 3])
        s = g.shape(ranks=(2, 3, 4) if L == 2 else (3, 4), lo=2, hi=6, cap=72)
        n = len(s)
        o = edge_obj(g, "e", L)
        small = o["a"].get("pad") == NOPAD
        if small:
            s = [max(v, 5) if i >= n - 2 else min(v, 2) for i, v in enumerate(s)]
        evs = [o]
        x = g.tensor(s, g.choice(["f8", "f8", "f4"]), lim=6)
        sel = g.axlist(n, L)
        if small and L == 2:
            sel = g.sample([n - 1, n - 2], 2)
        what = g.choice(["component", "component", "horizontal", "vertical", "all_components", "magnitude", "magnitude"])
        if what == "component":
            ea = g.choice(sel)
            oth = [a for a in sel if a % n != ea % n]
            multi = isinstance(o["a"].get("ks"), dict) and o["a"]["ks"]["k"] == "l"
            ax = SEQ(*oth) if len(oth) > 1 or g.chance(.5) else INT(oth[0])
            if g.chance(.3):
                ax = SEQ(*sel)
            if g.chance(.1) and L == 2 and n == 2:
                ax = ALL
            evs.append(ev("component", "e", {"ea": ea}, x=x, ax=ax, dt=x["dt"]))
        elif what in ("horizontal", "vertical"):
            evs.append(ev(what, "e", x=x, dt=x["dt"]))
        else:
            ax = g.axarg(n, sel)
            if what == "all_components":
                evs.append(ev(what, "e", x=x, ax=ax, dt=x["dt"]))
            else:
                p = g.choice([2, 2, 2, 1, 4, 3])
                evs.append(ev(what, "e", {"eps": q(g.choice([0, 0, Fr(1, 2), Fr(1, 64)])), "p": p}, x=x, ax=ax, dt=x["dt"]))
        eps.append(ep(evs))
    # all small integer edge kernels, with all kinds of smoothing kernels
    import itertools
    special = [(-1, 2, -1), (1, 0, -1), (1, -2, 1), (-1, 0, 1), (2, 0, -2), (-2, 0, 2), (1, -1), (-1, 1), (0, 1, 0), (1, 1, 1), (0, 0, 0), (-1, -1, 2), (2, -4, 2),
               (-3, 0, 3), (1, -8, 0, 8, -1), (-1, 0, 0, 0, 1)]
    allk = list(itertools.product(range(-2, 3), repeat=3)) + list(itertools.product(range(-2, 3), repeat=2))
    for e in special + (g.sample(allk, 45) if k == 1 else allk):
        sm_ = g.choice([[1, 2, 1], [1, 1, 1], [3, 10, 3], [2, 4, 2], [-1, -2, -1], [1], [2], [1, 3], [1, 2, 3], [0, 1, 0], [1, 0, -1], [1, 4, 6, 4, 1], [0, 1, 2]])
        s = [g.randint(3, 5), g.randint(3, 6)]
        eps.append(ep(ev("EdgeFilter", "e", {"edge": tree(g.choice([list, tuple])(e)), "smooth": tree(sm_), "norm": sum(sm_) != 0 and g.chance(.5),
                                             "pad": pstr(g.choice(PADARGS)) if len(e) > 3 else g.choice([NOPAD, pstr(g.choice(PADARGS))])}),
                      ev("component", "e", {"ea": g.choice([0, -1])}, x=g.tensor(s, "f8", lim=6), ax=g.choice([ALL, SEQ(0, 1)]), dt="f8")))
    for _ in range(110 * k):
        s = g.shape(ranks=(2, 3), lo=3, hi=6, cap=72)
        n = len(s)
        sel = g.axlist(n, g.randint(2, n))
        o = lap_obj(g, "e")
        if o["a"]["pad"] == NOPAD:
            s = [max(3, v) for v in s]
        x = g.tensor(s, g.choice(["f8", "f4"]), lim=6)
        eps.append(ep(o, ev("magnitude", "e", {"eps": 0, "p": 1}, x=x, ax=g.axarg(n, sel), dt=x["dt"], r={"fwd": 1})))
    return eps


def C18(g, k):
    eps = []
    for _ in range(430 * k):
        s = g.shape(ranks=(1, 2, 2, 3, 4), hi=6, cap=80)
        n = len(s)
        sel = g.axlist(n)
        L = len(sel)
        dy = g.chance(.6)
        evs = []
        pad = NOPAD if g.chance(.4) else pstr(g.choice(PADARGS))
        lp = NOPAD if g.chance(.4) or pad != NOPAD else pstr(g.choice(PADARGS))
        if dy:      # dyadic blur: exact thresholds
            ker = g.choice([[Fr(1, 4), Fr(1, 2), Fr(1, 4)], [Fr(1, 2), Fr(1, 2)], [1], [0, 1, 0], [Fr(1, 4)] * 4, [Fr(1, 8), Fr(3, 4), Fr(1, 8)]])
            evs.append(ev("SeparablePoolNd", "f", {"kernel": tree(ker), "stride": tree(g.choice([None, 2, 1])), "pad": lp}))
            if pad["k"] == "str" and pad["v"] in ("mean", "linear_ramp"):
                pad = pstr("symmetric")
            if lp["k"] == "str" and lp["v"] in ("mean", "linear_ramp"):
                evs[0]["a"]["pad"] = pstr("reflect")
        else:
            layer, _, _ = pool_layer(g, "f", L, lp, hi=5)
            evs.append(layer)
        th = g.choice([0, 0, Fr(1, 4), Fr(1, 2), 1, 2, Fr(3, 2), 5])
        evs.append(ev("UnsharpMask", "u", {"blur": "f", "amount": q(g.choice([Fr(1, 2), 1, 2, -1, 0, Fr(3, 4)])), "threshold": q(th), "pad": pad}))
        for _ in range(g.choice([1, 1, 2])):
            x = g.tensor(s, g.choice(["f8", "f8", "f4"]), lim=6)
            e = pool_event(g, "u", x, sel, op="unsharp")
            # a zero-valued difference at the threshold is decided exactly only for dyadic data
            e["a"] = {"slack": 0 if dy else ("1/1000000000" if x["dt"] == "f8" else "1/10000")}
            evs.append(e)
        eps.append(ep(evs))
    return eps


# ---------------------------------------------------------------------------
# Metrics

def img(g, s, dt="f8", lo=0, hi=16, den=16):
    return tens(s, [Fr(g.randint(lo * den // 16, hi * den // 16), den) for _ in range(prod(s))], dt, g.lay())


def C20(g, k):
    eps = []
    for _ in range(50 * k):       # images of different types, samples with many digits
        s = g.shape(ranks=(1, 2, 3), hi=5, cap=40)
        fine = lambda: [Fr(g.randint(-2 ** 33, 2 ** 33), 2 ** 31) for _ in range(prod(s))]
        x, y = tens(s, fine(), "f8", g.lay()), g.tensor(s, g.choice(["f8", "f4", "f2", "i8", "u1", "i4"]), lim=4)
        if y["dt"] == "f8":
            y = tens(s, fine(), "f8", g.lay())
        if g.chance(.5):
            x, y = y, x
        o = g.choice([ev("MSE", "m", {"red": g.choice(["mean", "sum", "none"])}),
                      ev("PSNR", "m", {"red": g.choice(["mean", "sum", "none"]), "maxv": 1, "eps": q(Fr(1, 1024))})])
        eps.append(ep(o, ev("metric", "m", x=x, y=y, ax=g.axarg(len(s), g.axlist(len(s))), dt="f8")))
    for _ in range(520 * k):
        s = g.shape(ranks=(1, 2, 3, 4), hi=5, cap=80)
        n = len(s)
        dt = g.choice(["f8", "f8", "f4"])
        x, y = g.tensor(s, dt, lim=4), g.tensor(s, dt, lim=4)
        if g.chance(.2):
            y = dict(x, lay=g.lay())
        sel = g.axlist(n)
        red = g.choice(["mean", "mean", "sum", "none"])
        r = {}
        ax = g.axarg(n, sel)
        if len(sel) == n and g.chance(.5):
            ax, r = ALL, {"noax": 1}
        elif g.chance(.08):
            ax = g.choice([SEQ(), SLICE(n)])      # no axes: nothing is reduced
        if g.chance(.5):
            o = ev("MSE", "m", {"red": red})
        else:
            o = ev("PSNR", "m", {"red": red, "maxv": q(g.choice([1, 255, 2, Fr(1, 2)])), "eps": q(g.choice([0, 0, Fr(1, 2), Fr(1, 1024), Fr(-1, 8)]))})
        evs = [o, ev("metric", "m", x=x, y=y, ax=ax, dt=dt, r=r)]
        if g.chance(.3):
            evs.append(ev("metric", "m", x=y, y=x, ax=ax, dt=dt, r=r))
        if g.chance(.1):
            evs.append(ev("metric", "m", x=x, y=g.tensor(s + [1], dt), ax=ALL, dt=dt))
        eps.append(ep(evs))
    return eps


def ssim_blur(g, L, evs):
    c = g.random()
    if c < .1:
        return {"k": "name", "v": g.choice(["gaussian", "mean"])}, [11] * L
    sizes = [g.choice([2, 3, 3, 4, 5]) for _ in range(L)]
    if g.chance(.5):
        sizes = [sizes[0]] * L
        ks = sizes[0]
    else:
        ks = list(sizes)
    c = g.random()
    if c < .2:       # weights of either sign, not summing to one
        kk = [[Fr(g.randint(-4, 6), 4) for _ in range(z)] for z in sizes]
        evs.append(ev("SeparablePoolNd", "b", {"kernel": tree(kk[0] if not isinstance(ks, list) else kk), "stride": NONE, "pad": NOPAD}))
    elif c < .6:
        evs.append(ev("GaussianPoolNd", "b", {"ks": tree(ks), "sigma": tree(g.choice([1, Fr(3, 2), 2])), "order": tree(0), "stride": NONE, "pad": NOPAD}))
    else:
        evs.append(ev("AvgPoolNd", "b", {"ks": tree(ks), "stride": tree(g.choice([None, 2])), "cip": True, "pad": NOPAD}))
    return {"k": "ref", "v": "b"}, sizes


def C21(g, k):
    eps = []
    for _ in range(3 * k):        # the default blur on images
        x = img(g, [g.randint(11, 13), g.randint(11, 14)], g.choice(["f8", "f4"]))
        y = img(g, x["s"], x["dt"])
        eps.append(ep(ev("SSIM", "m", {"blur": {"k": "name", "v": g.choice(["gaussian", "mean"])}, "pad": g.choice([NOPAD, pstr("replicate")]), "K1": "1/100", "K2": "3/100",
                                       "sample": g.chance(.5), "crop": g.chance(.5)}),
                      ev("ssim", "m", {"full": g.chance(.5)}, x=x, y=y, ax=g.choice([ALL, SEQ(0, 1), SEQ(-1, 0)]), rx=ALL, dt=x["dt"])))
    for _ in range(330 * k):
        evs = []
        L = g.choice([1, 2, 2, 2, 3])
        blur, sizes = ssim_blur(g, L, evs)
        n = g.choice([L, L + 1, L + 2]) if L < 3 else L + g.randint(0, 1)
        pad = NOPAD if g.chance(.4) else pstr(g.choice(["reflect", "replicate", "symmetric", "circular", "zeros"]))
        sel = g.axlist(n, L) if g.chance(.5) else list(range(n - L, n))
        if blur["v"] in ("gaussian", "mean"):
            L = 1
            sel = sel[:1]
            sizes = [11]
        pos = norms(n, sel)
        s = [g.randint(1, 2) for _ in range(n)]
        for a, z in zip(pos, sizes):
            s[a] = z + g.randint(0, 3)
        while prod(s) > 150:
            j = max(range(n), key=lambda i: s[i] - (sizes[pos.index(i)] if i in pos else 0))
            if s[j] == (sizes[pos.index(j)] if j in pos else 1):
                break
            s[j] -= 1
        if prod(s) > 300:
            continue
        samp = g.chance(.5)
        crop = g.chance(.6)
        evs.append(ev("SSIM", "m", {"blur": blur, "pad": pad, "K1": q(g.choice([Fr(1, 128), Fr(1, 4), Fr(1, 16)])), "K2": q(g.choice([Fr(1, 32), Fr(1, 2), Fr(1, 8)])),
                                    "sample": samp, "crop": crop}))
        dt = g.choice(["f8", "f8", "f8", "f4"])
        x, y = img(g, s, dt), img(g, s, dt)
        c = g.random()
        if c < .15:
            y = dict(x, lay=g.lay())
        rx = g.axarg(n, g.axlist(n)) if g.chance(.93) else g.choice([SEQ(), SLICE(n)])
        if g.chance(.3):
            rx = ALL
        ax = g.axarg(n, sel)
        r = {}
        if pos == list(range(2, n)) and n > 2 and g.chance(.5):
            ax, rx, r = SLICE(2), SLICE(1), {"noax": 1}
        full = g.chance(.5)
        evs.append(ev("ssim", "m", {"full": full}, x=x, y=y, ax=ax, rx=rx, dt=dt, r=r))
        if g.chance(.25):
            evs.append(ev("ssim", "m", {"full": full}, x=y, y=x, ax=ax, rx=rx, dt=dt, r=r))
        eps.append(ep(evs))
    return eps


MSW = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)


def C22(g, k):
    eps = []
    for _ in range(3 * k):        # the default five scales and the default blur
        blur = g.choice(["gaussian", "mean"])
        lead_ = g.choice([[], [2], [1, 2]])
        s = lead_ + [11 * 16 + g.randint(0, 20)]
        w = g.choice([1, 1, 0])
        x = img(g, s)
        y = dict(x, d=qs([min(Fr(1), max(Fr(0), Fr(v) + Fr(g.randint(-4, 4), 16))) for v in x["d"]]))
        eps.append(ep(ev("MS_SSIM", "m", {"weights": [q(Fr(str(v))) for v in MSW], "prod": True, "eps": "1/65536", "blur": {"k": "name", "v": blur},
                                          "pad": NOPAD if g.chance(.5) else pstr("reflect"), "K1": "1/128", "K2": "1/32", "sample": g.chance(.5), "crop": g.chance(.5)},
                         r={"defweights": 1}),
                      ev("ms_ssim", "m", x=x, y=y, ax=INT(-1), rx=g.choice([ALL, INT(-1)]), dt="f8")))
    for _ in range(230 * k):
        evs = []
        L = g.choice([1, 1, 2, 2])
        W = g.choice([1, 2, 2, 3, 3, 4]) if L == 1 else g.choice([1, 2, 2, 3])
        sizes = [g.choice([2, 3]) for _ in range(L)]
        ks = sizes[0] if g.chance(.5) else list(sizes)
        if isinstance(ks, int):
            sizes = [ks] * L
        evs.append(g.choice([
            ev("GaussianPoolNd", "b", {"ks": tree(ks), "sigma": tree(g.choice([1, 2])), "order": tree(0), "stride": NONE, "pad": NOPAD}),
            ev("AvgPoolNd", "b", {"ks": tree(ks), "stride": NONE, "cip": True, "pad": NOPAD})]))
        n = L + g.choice([0, 1, 2, 2])
        sel = g.axlist(n, L) if g.chance(.4) else list(range(n - L, n))
        pos = norms(n, sel)
        s = [g.randint(1, 2) for _ in range(n)]
        for a, z in zip(pos, sizes):
            s[a] = z * 2 ** (W - 1) + (0 if g.chance(.08) else g.randint(1, 2))
        if prod(s) > 420:
            s = [v if i in pos else 1 for i, v in enumerate(s)]
        pad = NOPAD if g.chance(.4) else pstr(g.choice(["reflect", "replicate", "symmetric", "circular"]))
        w = [g.choice([Fr(1, 2), Fr(1, 4), 1, 2, Fr(1, 3).limit_denominator(8), Fr(3, 8)]) for _ in range(W)]
        w = [Fr(round(v * 64), 64) for v in w]
        pr = g.chance(.65)
        evs.append(ev("MS_SSIM", "m", {"weights": qs(w), "prod": pr, "eps": q(g.choice([Fr(1, 2 ** 20), Fr(1, 8), Fr(1, 1024)])), "blur": {"k": "ref", "v": "b"}, "pad": pad,
                                       "K1": q(g.choice([Fr(1, 128), Fr(1, 4)])), "K2": q(g.choice([Fr(1, 32), Fr(1, 4)])), "sample": g.chance(.5),
                                       "crop": g.chance(.6)}, r={"wt": g.choice(["tuple", "list"])}))
        dt = g.choice(["f8", "f8", "f8", "f4"])
        x = img(g, s, dt)
        c = g.random()
        if c < .1:
            y = dict(x)
        elif c < .6:
            y = dict(x, d=qs([min(Fr(1), max(Fr(0), Fr(v) + Fr(g.randint(-3, 3), 16))) for v in x["d"]]))
        else:
            y = img(g, s, dt)
        rx = g.axarg(n, g.axlist(n)) if g.chance(.7) else ALL if g.chance(.8) else g.choice([SEQ(), SLICE(n)])
        r = {}
        ax = g.axarg(n, sel)
        if pos == list(range(2, n)) and n > 2 and g.chance(.5):
            ax, rx, r = SLICE(2), SLICE(1), {"noax": 1}
        evs.append(ev("ms_ssim", "m", x=x, y=y, ax=ax, rx=rx, dt=dt, r=r))
        eps.append(ep(evs))
    return eps


# ---------------------------------------------------------------------------
# Bayer

SAS = ["RGGB", "BGGR", "GRBG", "GBRG"]


def case(g, sa):
    return g.choice([sa, sa, sa.lower(), "".join(c.lower() if g.chance(.5) else c for c in sa)])


def sa_r(g, sa, **r):
    r["sa"] = case(g, sa)
    return r


def lead(g, hi=2):
    if g.chance(.06):
        return [g.randint(1, 2) for _ in range(g.choice([3, 4]))]
    return [g.randint(1, hi) for _ in range(g.choice([0, 1, 1, 2]))]


def C23(g, k):
    eps = []
    dts = ["f8", "f4", "i8", "u1"]
    for _ in range(160 * k):
        l = lead(g)
        H, W = 2 * g.randint(1, 4), 2 * g.randint(1, 4)
        if g.chance(.08):
            l, H, W = [], 2 * g.randint(1, 9), 2 * g.randint(1, 9)
        dt = g.choice(dts + ["i2", "f2", "i1"])
        n = prod(l)
        x1 = g.tensor(l + [1, H, W], dt, data=range(n * H * W) if n * H * W < (120 if dt == "i1" else 200) and g.chance(.5) else None)
        x4 = g.tensor(l + [4, H // 2, W // 2 + g.choice([0, 0, 1])], dt)
        x3 = g.tensor(l + [3, H, W], dt)
        fd = g.choice(["f8", "f4"])
        sa = g.choice(SAS)
        eps.append(ep(ev("b14", "", x=x1, dt=dt), ev("b41", "", x=x4, dt=dt), ev("rgb1", "", {"sa": sa}, x=x3, dt=dt, r=sa_r(g, sa)),
                      ev("rgb4", "", {"sa": sa}, x=x3, dt=dt, r=sa_r(g, sa)),
                      ev("down1", "", {"sa": sa}, x=g.tensor(l + [1, H, W], fd), dt=fd, r=sa_r(g, sa)),
                      ev("down4", "", {"sa": sa}, x=g.tensor(l + [4, H // 2, W // 2], fd), dt=fd, r=sa_r(g, sa))))
        if g.chance(.3):     # mosaics as sensors give them: whole numbers up to the type's limit
            idt = g.choice(["u1", "u1", "i2", "i4", "i8", "i1"])
            hi = {"u1": 255, "i1": 127, "i2": 32767}.get(idt, 2 ** 20)
            lo = 0 if g.chance(.6) or idt == "u1" else -hi
            X = lambda s: tens(s, [g.choice([g.randint(lo, hi), hi, hi - 1]) for _ in range(prod(s))], idt, g.lay())
            eps.append(ep(ev("down1", "", {"sa": sa}, x=X(l + [1, H, W]), r=sa_r(g, sa)),
                          ev("down4", "", {"sa": sa}, x=X(l + [4, H // 2, W // 2]), r=sa_r(g, sa))))
    return eps


def banks(g, k, ic, oc, bias):
    b = {}
    for site in ("R", "B", "GR", "GB"):
        b[site] = {"w": [qs([g.dy(3, (1, 2)) for _ in range(ic * k * k)]) for _ in range(oc)],
                   "b": qs([g.dy(3) if bias else 0 for _ in range(oc)])}
    return b


def C24(g, k):
    eps = []
    for _ in range(200 * k):
        kk = g.choice([1, 2, 3, 3, 4, 5]) if g.chance(.93) else g.choice([6, 7, 8, 9])
        ic, oc = g.choice([1, 1, 2, 3]), g.choice([1, 2, 3])
        bias = g.chance(.5)
        dt = g.choice(["f8", "f8", "f4"])
        lo = (kk // 2 + 2) // 2 * 2
        sz = lambda: max(2, 2 * (lo // 2)) + 2 * g.randint(0, 2)
        H, W = sz(), sz()
        while kk // 2 >= H:
            H += 2
        while kk // 2 >= W:
            W += 2
        if H * W * ic * kk * kk * oc > 3500:
            ic = oc = 1
        un = g.choice([False, True])
        l = [g.randint(1, 2)] if un or g.chance(.6) else []
        evs = [ev("BayerConv2d", "c", {"k": kk, "ic": ic, "oc": oc, "bias": bias, "banks": banks(g, kk, ic, oc, bias)},
                  r={"dt": dt, "cls": "BayerConv2dUnshuffle" if un and g.chance(.5) else "BayerConv2d"})]
        cls = evs[0]["r"]["cls"]
        x = g.tensor(l + [ic, H, W], dt, lim=4)
        for sa in g.sample(SAS, 2):
            evs.append(ev("bconv", "c", {"sa": sa, "unshuffle": un}, x=x, dt=dt,
                          r=sa_r(g, sa, how="unshuffle" if cls == "BayerConv2d" else "call")))
        eps.append(ep(evs))
    return eps


def C25(g, k):
    eps = []
    for _ in range(130 * k):
        l = lead(g)[:1]
        H, W = 2 * g.randint(2, 4), 2 * g.randint(2, 4)
        if g.chance(.06):
            l, H, W = [], 2 * g.randint(2, 8), 2 * g.randint(2, 8)
        sa = g.choice(SAS)
        c = g.random()
        clamp = g.choice([1, 1, 1, 2, Fr(1, 2), 255])
        hi = 16 if clamp != 255 else 16 * 300
        if c < .2:
            v = Fr(g.randint(0, 16), 16) * min(clamp, 4)
            x = tens(l + [1, H, W], [v] * (prod(l) * H * W), "f4")
        else:
            x = tens(l + [1, H, W], [Fr(g.randint(0, hi * 4), 64) for _ in range(prod(l) * H * W)], "f4", g.lay())
        r = sa_r(g, sa)
        if clamp == 1 and g.chance(.5):
            r["defclamp"] = 1
        evs = [ev("demosaic", "", {"sa": sa, "clamp": q(clamp)}, x=x, dt="f4", r=r)]
        sb = g.choice(SAS)
        dt = g.choice(["f8", "f4", "i8"])
        evs.append(ev("merge3", "", {"sa": sb}, x=g.tensor(l + [1, H, W], dt), y=g.tensor(l + [2, H, W], dt), dt=dt, r=sa_r(g, sb)))
        eps.append(ep(evs))
    return eps


# ---------------------------------------------------------------------------
# Miscellaneous

def C26(g, k):
    eps = []
    for _ in range(330 * k):
        s = g.choice([[], [1], [g.randint(1, 6)], g.shape(cap=40)])
        dt = g.choice(["f8", "f8", "f4", "i8"])
        deg = g.randint(0, 7) if g.chance(.9) else g.randint(8, 16)
        if dt[0] == "i":
            p = [g.randint(-5, 5) for _ in range(deg + 1)]
            if g.chance(.2):                     # an answer is optional, a wrong one is not allowed
                p[g.randint(0, deg)] += g.choice([-.5, .25, .5, .75])
                dt = ""
            x = tens(s, [g.randint(-5, 5) for _ in range(prod(s))], "i8", g.lay())
        else:
            p = [g.choice([0, 1, -1, g.dy(4)]) for _ in range(deg + 1)]
            x = tens(s, [g.dy(3, (1, 2)) for _ in range(prod(s))], dt, g.lay())
        eps.append(ep(ev("poly", "", {"p": qs(p)}, x=x, dt=dt, r={"pt": g.choice(["list", "tuple"])})))
    for _ in range(230 * k):
        s, t = g.choice([[], g.shape(cap=16)]), g.choice([[], g.shape(cap=16)])
        dt = g.choice(["f8", "f4", "i8"])
        e = ev("outer", "", x=g.tensor(s, dt), y=g.tensor(t, dt), dt=dt)
        if g.chance(.15):
            e["r"] = {"np": 1}
        eps.append(ep(e))
    return eps


def C27(g, k):
    eps = []
    exps = [Fr(1, 2), Fr(-1, 2), Fr(3, 2), Fr(1, 4), Fr(5, 2), Fr(7, 4), Fr(-5, 4), 2, 3, 0, 1, -1, -2, Fr(3, 8), 4, 5, Fr(1, 16), Fr(31, 16), Fr(9, 4)]
    for _ in range(420 * k):
        c = g.random()
        xs = [Fr(g.choice([0, 0, 1, -1, 2, -2, 3, -3, 4, -4, 9, -9])) if g.chance(.6) else g.dy(6) for _ in range(40)]
        fd = g.choice(["f8", "f8", "f4"])
        eps_ = g.choice([Fr(1, 2 ** 20), Fr(1, 64), Fr(1, 4), 0])
        r = {}
        if c < .35:       # number exponent
            s = g.shape(cap=20)
            e = g.choice(exps)
            dt = g.choice([fd, fd, "i8"])
            if dt == "i8":
                xs = [Fr(g.randint(-9, 9)) for _ in xs]
                if e == int(e) and e < 0:
                    e = 2
            x, y = tens(s, xs[:prod(s)] if prod(s) <= 40 else xs[:1] * prod(s), dt, g.lay()), tens([], [e], "f8")
            r["ynum"] = 1
            out = dt if not (dt == "i8" and e != int(e)) else "f4"
        elif c < .6:      # number base
            s = g.shape(cap=20)
            es = [g.choice(exps) for _ in range(prod(s))]
            x, y = tens([], [g.choice([0, 2, -2, Fr(1, 2), -3, Fr(9, 4)])], "f8"), tens(s, es, fd, g.lay())
            if frac_zero(x, y):
                x = tens([], [2], "f8")
            r["xnum"] = 1
            out = fd
        else:             # two tensors, broadcasting
            s = g.shape(ranks=(1, 2, 3), hi=4, cap=24)
            t = [v if g.chance(.6) else 1 for v in s][g.choice([0, 0, len(s) - 1]):]
            u = [v if g.chance(.7) else 1 for v in s]
            if g.chance(.5):
                t, u = u, t
            x = tens(t, (xs * 3)[:prod(t)], fd, g.lay())
            y = tens(u, [g.choice(exps) for _ in range(prod(u))], fd, g.lay())
            out = fd
        if eps_ == Fr(1, 2 ** 20) and g.chance(.5):
            pass
        grad = None
        if out == "f8" and not r.get("xnum") and x["dt"] == "f8" and g.chance(.5):
            grad = cot(g, bshape(x["s"], y["s"]))
        eps.append(ep(ev("spow", "", {"eps": q(eps_)}, x=x, y=y, dt=out, r=r, ct=grad)))
    return eps


def bshape(s, t):
    n = max(len(s), len(t))
    s, t = [1] * (n - len(s)) + s, [1] * (n - len(t)) + t
    return [a if b == 1 else b for a, b in zip(s, t)]


def frac_zero(x, y):
    return x["d"][0] == 0 and any(Fr(v) < 0 for v in y["d"])


def C28(g, k):
    eps = []
    for i in range(330 * k):
        s = g.shape(ranks=(1, 2, 2, 3, 4), hi=6, cap=120)
        n = len(s)
        sel = g.axlist(n)
        pos = norms(n, sel)
        size = [g.choice([None, s[a], 1, g.randint(1, s[a])]) for a in pos]
        if g.chance(.04):
            size[0] = s[pos[0]] + 1
        if g.chance(.25) and len(set(size)) == 1:
            arg = size[0]
        else:
            arg = g.choice([list, tuple])(size)
        poss = prod([s[a] - (z if z else s[a]) + 1 for a, z in zip(pos, size) if (z or 0) <= s[a]])
        draws = 25 * poss if poss <= 8 and g.chance(.5) else g.randint(1, 6)
        x = tens(s, g.distinct(prod(s)), g.choice(["f8", "f4", "i8"]), g.lay())
        eps.append(ep(ev("crop", "", {"size": tree(arg), "draws": draws, "seed": g.randint(0, 10 ** 6)}, x=x, ax=g.axarg(n, sel), dt=x["dt"])))
    for i in range(12 * k):       # long axes
        n = long_len(g, 100, 2000)
        if i % 3 == 0:            # all positions of a crop about as long as the axis
            n, d = long_len(g, 100, 700), 1
            size, draws = n - d, 25 * (d + 1)
        else:                     # every part of the axis
            size, draws = g.randint(1, 3) if i % 3 == 1 else max(1, n // 40), 100
        s, a = g.choice([([n], 0), ([n, 1], 0), ([1, n], -1), ([1, n], 1)])
        x = tens(s, list(range(-7, n - 7)), g.choice(["f8", "f4", "i8", "i4"]), g.lay())
        eps.append(ep(ev("crop", "", {"size": tree(size), "draws": draws, "seed": g.randint(0, 10 ** 6)}, x=x, ax=g.axarg(len(s), [a]), dt=x["dt"])))
    return eps


def C29(g, k):
    eps = []
    for i in range(40 * k):
        s = [g.randint(10, 30), g.randint(5, 20)] if i % 4 == 1 else g.choice([[g.randint(2, 4), 1, g.randint(8, 14), 12], [2, 3, g.randint(6, 10), g.randint(6, 10)], [g.randint(300, 700)]]) if i % 2 else g.shape(cap=60)
        dt = g.choice(["f8", "f8", "f4"])
        if i % 8 == 6:
            s = [g.randint(2, 6)] * g.randint(2, 3)
        sg = g.choice([Fr(1, 4), 1, Fr(1, 8), 2])
        x = g.tensor(s, dt, g.choice("tts") if i % 8 == 6 else None)
        eps.append(ep(ev("gauss", "", {"sigma": q(sg), "seed": g.randint(0, 10 ** 6)}, x=x, dt=dt)))
        hi = g.choice([64, 64, 64, 400, 4000, 40000])
        lo = 0 if hi == 64 or g.chance(.3) else hi // 2      # bright images: large rates everywhere
        if g.chance(.12):         # a million and more
            dt, lo, hi = "f8", 2 ** 20, 2 ** g.randint(21, 24)
        x = tens(s, [Fr(g.randint(lo, hi), 4) if i % 5 else 0 for _ in range(prod(s))], dt, g.lay())
        eps.append(ep(ev("poisson", "", {"k": q(g.choice([1, Fr(1, 2), 2, Fr(1, 4), 4])), "sigma": q(sg), "seed": g.randint(0, 10 ** 6)}, x=x, dt=dt)))
    return eps


def cot(g, s):
    return {"s": list(s), "d": qs([g.randint(-3, 3) for _ in range(prod(s))]), "dt": "f8"}


def padded(s, pos, ws, modes):
    s = list(s)
    for a, w, m in zip(pos, ws, modes):
        if tuple(w) != (0, 0):
            s[a] += w[0] + w[1] + (s[a] % 2 if m == "periodize" else 0)
    return s


def C30(g, k):
    eps = []
    sm = lambda g, ranks=(1, 2, 2, 3): g.shape(ranks=ranks, hi=4, cap=12)
    # padding
    lin = PADMODES + ODDMODES + ["constant", "zeros", "linear_ramp", "mean", "maximum", "minimum", "median"]
    for i in range(150 * k):
        s = sm(g)
        n = len(s)
        sel = g.axlist(n, min(n, 2))
        ms = [g.choice(lin) for _ in sel]
        kink = "median" in ms      # equal samples would be told apart by the median only
        if kink:
            sel, ms = sel[:1], ["median"]
        ws = [widths(g, 3 if n > 1 else 9) for _ in sel]
        x = tens(s, g.distinct(prod(s)) if kink else g.vals(prod(s)), "f8", g.lay())
        out = padded(s, norms(n, sel), ws, ms)
        eps.append(ep(padder("p", ws, ms, (1, 2), (3, -1), (g.choice([None, 1, 2, 3]), g.choice([None, 2, 3]))),
                      ev("pad", "p", x=x, ax=SEQ(*sel), dt="f8", ct=cot(g, out))))
        if g.chance(.3):
            a = g.randrange(n)
            w, m = widths(g, 3), g.choice(PADMODES + ODDMODES + ["zeros", "mean"])
            eps.append(ep(padder("p", w, m), ev("pad_axis", "p", {"i": 0, "axis": a}, x=x, dt="f8", ct=cot(g, padded(s, [a], [w], [m])))))
    # pooling with same padding or none
    for i in range(90 * k):
        s = sm(g)
        n = len(s)
        sel = g.axlist(n, min(n, 2))
        st = g.randint(1, 3)
        pad = g.choice(["replicate", "circular", "symmetric", "reflect", "antisymmetric", "odd_reflect", "odd_symmetric", "smooth", "zeros", "mean"])
        layer, ks, c = pool_layer(g, "f", len(sel), pstr(pad), hi=4, stride=st, sizes=[g.randint(1, 4) for _ in sel])
        if c == "AvgPoolNd" and pad == "zeros" and g.chance(.6):
            layer["a"]["cip"] = False
        out = [-(-v // st) if i in norms(n, sel) else v for i, v in enumerate(s)]
        eps.append(ep(layer, ev("pool", "f", x=g.tensor(s, "f8"), ax=SEQ(*sel), dt="f8", ct=cot(g, out))))
    for i in range(40 * k):      # valid
        s = [g.randint(3, 5), g.randint(1, 3)]
        ks, st = g.randint(1, 3), g.randint(1, 3)
        out = [(s[0] - ks) // st + 1, s[1]]
        layer, _, _ = pool_layer(g, "f", 1, NOPAD, stride=st, single=True, sizes=[ks])
        eps.append(ep(layer, ev("pool", "f", x=g.tensor(s, "f8"), ax=INT(0), dt="f8", ct=cot(g, out))))
    # edges, Laplacians
    for i in range(50 * k):
        s = g.choice([[3, 3], [3, 4], [2, 3], [1, 3, 3], [4, 2]])
        n = len(s)
        o = g.choice([ev("Sobel", "e", {"norm": g.chance(.5), "pad": DEFPAD}), ev("Scharr", "e", {"norm": True, "pad": pstr("circular")}),
                      ev("Prewitt", "e", {"norm": False, "pad": DEFPAD}), ev("Farid", "e", {"norm": False, "pad": pstr("symmetric")}),
                      ev("GaussianGrad", "e", {"ks": tree(3), "sigma": tree(1), "eks": [], "esg": [], "norm": True, "order": 1, "pad": DEFPAD})])
        if g.chance(.6):
            eps.append(ep(o, ev("component", "e", {"ea": -1}, x=g.tensor(s, "f8"), ax=INT(-2), dt="f8", ct=cot(g, s))))
        else:
            eps.append(ep(ev("Laplace", "e", {"pad": DEFPAD}), ev("magnitude", "e", {"eps": 0, "p": 1}, x=g.tensor(s, "f8"), ax=SEQ(n - 1, n - 2), dt="f8",
                                                                 ct=cot(g, s), r={"fwd": 1})))
    # unsharp without threshold, conv, Bayer, MSE
    for i in range(30 * k):
        s = sm(g, (1, 2))
        lay = ev("GaussianPoolNd", "f", {"ks": tree(3), "sigma": tree(1), "order": tree(0), "stride": NONE, "pad": NOPAD})
        eps.append(ep(lay, ev("UnsharpMask", "u", {"blur": "f", "amount": "1/2", "threshold": 0, "pad": pstr(g.choice(["reflect", "replicate"]))}),
                      ev("unsharp", "u", {"slack": 0}, x=g.tensor(s, "f8"), ax=g.choice([ALL, INT(0)]), dt="f8", ct=cot(g, s))))
        s = sm(g)
        d = g.randrange(len(s))
        dil = g.choice([1, 2])
        kk, st = g.randint(1, 2), g.randint(1, 2)
        s[d] = max(s[d], dil * (kk - 1) + 1)
        o = list(s)
        o[d] = (s[d] - dil * (kk - 1) - 1) // st + 1
        eps.append(ep(ev("conv1", "", {"w": qs(kern(g, kk)), "dim": d, "stride": st, "dil": dil}, x=g.tensor(s, "f8"), dt="f8", ct=cot(g, o))))
        sa = g.choice(SAS)
        eps.append(ep(ev("rgb1", "", {"sa": sa}, x=g.tensor([3, 2, 2], "f8"), dt="f8", ct=cot(g, [1, 2, 2])),
                      ev("rgb4", "", {"sa": sa}, x=g.tensor([3, 2, 2], "f8"), dt="f8", ct=cot(g, [4, 1, 1])),
                      ev("b14", "", x=g.tensor([1, 2, 4], "f8"), dt="f8", ct=cot(g, [4, 1, 2])),
                      ev("b41", "", x=g.tensor([4, 1, 2], "f8"), dt="f8", ct=cot(g, [1, 2, 4])),
                      ev("down1", "", {"sa": sa}, x=g.tensor([1, 2, 4], "f8"), dt="f8", ct=cot(g, [3, 1, 2])),
                      ev("down4", "", {"sa": sa}, x=g.tensor([4, 1, 2], "f8"), dt="f8", ct=cot(g, [3, 1, 2]))))
        bk = g.choice([1, 3])
        eps.append(ep(ev("BayerConv2d", "c", {"k": bk, "ic": 1, "oc": 1, "bias": False, "banks": banks(g, bk, 1, 1, False)}, r={"dt": "f8"}),
                      ev("bconv", "c", {"sa": sa, "unshuffle": False}, x=g.tensor([1, 1, 2, 4], "f8", lim=3), dt="f8", ct=cot(g, [1, 1, 2, 4]), r={"sa": sa}),
                      ev("bconv", "c", {"sa": sa, "unshuffle": True}, x=g.tensor([1, 1, 2, 4], "f8", lim=3), dt="f8", ct=cot(g, [1, 4, 1, 2]),
                         r={"sa": sa, "how": "unshuffle"})))
        s = sm(g, (1, 2))
        red = g.choice(["mean", "sum", "none"])
        eps.append(ep(ev("MSE", "m", {"red": red}), ev("metric", "m", x=g.tensor(s, "f8"), y=g.tensor(s, "f8"), ax=ALL, dt="f8",
                                                       ct=cot(g, s if red == "none" else []))))
        eps.append(ep(ev("poly", "", {"p": qs([g.randint(-3, 3) for _ in range(3)])}, x=g.tensor(s, "f8"), dt="f8", ct=cot(g, s))))
        eps.append(ep(ev("outer", "", {"wrt": g.choice("xy")}, x=g.tensor([2], "f8"), y=g.tensor([3], "f8"), dt="f8", ct=cot(g, [2, 3]))))
    # operations that are not linear: the slope at the given samples
    wrt = lambda a: dict(a, wrt="y") if g.chance(.35) else a
    for i in range(26 * k):
        s = sm(g, (1, 2))
        evs = []
        if g.chance(.5):
            evs.append(ev("AvgPoolNd", "f", {"ks": tree(g.choice([2, 4, 1])), "stride": NONE, "cip": True, "pad": NOPAD}))
        else:
            evs.append(ev("GaussianPoolNd", "f", {"ks": tree(g.choice([3, 5])), "sigma": tree(1), "order": tree(0), "stride": NONE, "pad": NOPAD}))
        evs += [ev("UnsharpMask", "u", {"blur": "f", "amount": q(g.choice([1, Fr(1, 2), 3, -1])), "threshold": q(g.choice([1, 2, Fr(1, 2), 5])),
                                       "pad": pstr(g.choice(["reflect", "replicate", "circular"]))}),
                ev("unsharp", "u", {"slack": 0}, x=g.tensor(s, "f8"), ax=g.choice([ALL, INT(0)]), dt="f8", ct=cot(g, s))]
        eps.append(ep(evs))
        s = sm(g, (1, 2, 3))
        sel = g.axlist(len(s))
        red = g.choice(["mean", "sum", "none"])
        out = s if red == "none" else [v for j, v in enumerate(s) if j not in norms(len(s), sel)]
        o = ev("MSE", "m", {"red": red}) if g.chance(.4) else \
            ev("PSNR", "m", {"red": red, "maxv": q(g.choice([1, 255, Fr(1, 2)])), "eps": q(g.choice([Fr(1, 2), Fr(1, 16)]))})
        eps.append(ep(o, ev("metric", "m", wrt({"z": 0}), x=g.tensor(s, "f8", lim=4), y=g.tensor(s, "f8", lim=4), ax=SEQ(*sel), dt="f8", ct=cot(g, out))))
        s = g.choice([[3, 3], [3, 4], [2, 3], [1, 3, 3], [4, 2]])
        o = edge_obj(g, "e", 2)
        if o["a"].get("pad") in (NOPAD, DEFPAD) and o["op"] == "EdgeFilter":
            o["a"]["pad"] = pstr("replicate")
        if o["a"].get("pad") != NOPAD:
            p = g.choice([2, 2, 2, 4, 1])
            eps.append(ep(o, ev("magnitude", "e", {"eps": q(g.choice([Fr(1, 2), Fr(1, 16), 2])), "p": p}, x=g.tensor(s, "f8", lim=4),
                                ax=SEQ(*g.sample([len(s) - 1, len(s) - 2], 2)), dt="f8", ct=cot(g, s))))
    for i in range(9 * k):
        bk, ic, oc = g.choice([1, 2, 3]), g.choice([1, 1, 2]), g.choice([1, 2])
        lay = ev("BayerConv2d", "c", {"k": bk, "ic": ic, "oc": oc, "bias": False, "banks": banks(g, bk, ic, oc, False)}, r={"dt": "f8"})
        s, evs = [g.randint(1, 2), ic, 4, 4], []
        for site in g.sample(["R", "B", "GR", "GB"], 2):        # training: the gradient of the filter banks
            sa, u = g.choice(SAS), g.chance(.4)
            evs.append(ev("bconv", "c", {"sa": sa, "unshuffle": u, "wrt": site}, x=g.tensor(s, "f8", lim=3), dt="f8",
                          ct=cot(g, [s[0], oc * 4, 2, 2] if u else [s[0], oc, 4, 4]), r={"sa": sa, "how": "unshuffle"} if u else {"sa": sa}))
        eps.append(ep(lay, evs))
        s = [1, g.randint(1, 2), g.randint(2, 3), g.randint(2, 3)]
        kind = g.choice(["GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"])
        eps.append(ep(ev("Loss", "l", {"kind": kind, "ks": tree(g.choice([3, 5])), "sigma": tree(g.choice([1, Fr(3, 2)])), "order": 1}),
                      ev("loss", "l", wrt({"z": 0}) if kind in ("GaussianEdgeLoss", "WeightedSum") else {"z": 0}, x=g.tensor(s, "f8", lim=4), y=g.tensor(s, "f8", lim=4), dt="f8", ct=cot(g, []))))
        sa = g.choice(SAS)
        x = tens([1, 4, 4], [Fr(g.randint(0, 80), 64) for _ in range(16)], "f4")
        eps.append(ep(ev("demosaic", "", {"sa": sa, "clamp": 1}, x=x, dt="f4", ct=cot(g, [3, 4, 4]))))
        L = g.choice([1, 1, 2])
        z = g.choice([2, 3])
        blur = g.choice([ev("AvgPoolNd", "b", {"ks": tree(z), "stride": NONE, "cip": True, "pad": NOPAD}),
                         ev("GaussianPoolNd", "b", {"ks": tree(z), "sigma": tree(1), "order": tree(0), "stride": NONE, "pad": NOPAD})])
        pad = NOPAD if g.chance(.4) else pstr(g.choice(["reflect", "replicate", "circular"]))
        s = [z + g.randint(0, 2 if L == 1 else 1) for _ in range(L)] + [g.randint(1, 2)] * (L == 1)
        m = ev("SSIM", "m", {"blur": {"k": "ref", "v": "b"}, "pad": pad, "K1": q(g.choice([Fr(1, 4), Fr(1, 16)])), "K2": q(g.choice([Fr(1, 2), Fr(1, 8)])),
                             "sample": g.chance(.5), "crop": g.chance(.5)})
        eps.append(ep(blur, m, ev("ssim", "m", wrt({"full": g.chance(.5)}), x=dict(img(g, s), lay="c"), y=dict(img(g, s), lay="c"), ax=INT(0) if L == 1 else g.choice([SEQ(0, 1), SEQ(1, 0)]),
                                  rx=ALL, dt="f8", ct=cot(g, []))))
        nw = g.choice([2, 2, 3]) if z == 2 else 2
        s = [2 ** (nw - 1) * z + g.randint(1, 2)] + [g.randint(1, 2) if nw == 2 else 1]
        m = ev("MS_SSIM", "m", {"weights": qs([g.choice([Fr(1, 2), 1, Fr(3, 8)]) for _ in range(nw)]), "prod": g.chance(.6), "eps": q(Fr(1, 1024)), "blur": {"k": "ref", "v": "b"}, "pad": pad,
                                "K1": "1/4", "K2": q(g.choice([Fr(1, 2), Fr(1, 4)])), "sample": g.chance(.5), "crop": g.chance(.5)})
        x = dict(img(g, s), lay="c")
        y = dict(x, d=qs([min(Fr(1), max(Fr(0), Fr(v) + Fr(g.randint(-3, 3), 16))) for v in x["d"]]))
        eps.append(ep(blur, m, ev("ms_ssim", "m", wrt({"z": 0}), x=x, y=y, ax=INT(0), rx=ALL, dt="f8", ct=cot(g, []))))
    return eps


def C31(g, k):
    eps = []
    x4 = lambda: g.tensor([1, 2, 4, 4], "f8")
    for i in range(14 * k):
        n = g.randint(1, 4)
        s = [g.randint(1, 4) for _ in range(n)]
        x = g.tensor(s, "f8")
        # axes at and beyond the limits
        for a in (-n - 1, -n, -1, 0, n - 1, n, n + 3, -n - 4):
            eps.append(ep(padder("p", (1, 2), g.choice(PADMODES)), ev("pad", "p", x=x, ax=g.choice([INT(a), SEQ(a)]), dt="f8"),
                          ev("pad_axis", "p", {"i": 0, "axis": a}, x=x, dt="f8")))
            eps.append(ep(ev("axes", "", x=x, ax=g.choice([INT(a), SEQ(0, a)])),
                          ev("AvgPoolNd", "f", {"ks": tree(1), "stride": NONE, "cip": True, "pad": NOPAD}), ev("pool", "f", x=x, ax=SEQ(a), dt="f8"),
                          ev("MSE", "m", {"red": "mean"}), ev("metric", "m", x=x, y=x, ax=INT(a), dt="f8"),
                          ev("conv1", "", {"w": [1], "dim": a, "stride": 1, "dil": 1}, x=x, dt="f8"),
                          ev("crop", "", {"size": tree(1), "draws": 1, "seed": 1}, x=tens(s, range(prod(s))), ax=INT(a), dt="f8")))
        x = x4()
        for a in (-5, -4, -1, 0, 3, 4, 9):
            eps.append(ep(ev("Sobel", "e", {"norm": False, "pad": DEFPAD}), ev("component", "e", {"ea": a}, x=x, ax=INT(2 if a % 4 != 2 else 3), dt="f8"),
                          ev("component", "e", {"ea": 3}, x=x, ax=SEQ(2, a), dt="f8"),
                          ev("AvgPoolNd", "b", {"ks": tree(3), "stride": NONE, "cip": True, "pad": NOPAD}),
                          ev("SSIM", "m", {"blur": {"k": "ref", "v": "b"}, "pad": NOPAD, "K1": "1/100", "K2": "3/100", "sample": True, "crop": True}),
                          ev("ssim", "m", {"full": False}, x=x, y=x, ax=SEQ(2, 3), rx=SEQ(a), dt="f8")))
        # widths, strides, orders
        for w in (-1, 0, 1):
            for t in (w, (w, 1), (1, w), [(1, 1), (0, w)]):
                eps.append(ep(padder("p", t, "reflect")))
        for st in (-2, -1, 0, 1, 2, None, [1, 0], [1, 2], [1, -1]):
            for cls in ("SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd"):
                a = {"stride": tree(st), "pad": NOPAD}
                a.update({"SeparablePoolNd": {"kernel": tree([1, 2])}, "AvgPoolNd": {"ks": tree(2), "cip": g.chance(.5)},
                          "GaussianPoolNd": {"ks": tree(3), "sigma": tree(1), "order": tree(0)}}[cls])
                eps.append(ep(ev(cls, "f", a)))
        for o in (-3, -1, 0, 1, 2):
            eps.append(ep(ev("gk", "", {"ks": 3, "sigma": 1, "order": o}),
                          ev("GaussianPoolNd", "f", {"ks": tree([3, 3]), "sigma": tree(1), "order": tree([0, o]), "stride": NONE, "pad": NOPAD}),
                          ev("GaussianGrad", "e", {"ks": tree(3), "sigma": tree(1), "eks": [], "esg": [], "norm": True, "order": o, "pad": DEFPAD})))
        # modes
        for m in ("reflekt", "Reflect", "edge", "wrap", "", "none", "reflect", "smooth"):
            eps.append(ep(padder("p", (1, 0), m), ev("pad", "p", x=x4(), ax=INT(3), dt="f8"), ev("pad_axis", "p", {"i": 0, "axis": 2}, x=x4(), dt="f8")))
            eps.append(ep(ev("AvgPoolNd", "f", {"ks": tree(3), "stride": tree(1), "cip": True, "pad": pstr(m)}), ev("pool", "f", x=x4(), ax=INT(3), dt="f8")))
        # reductions and shapes
        for red in ("mean", "sum", "none", "Mean", "avg", ""):
            eps.append(ep(ev("MSE", "m", {"red": red}), ev("metric", "m", x=x4(), y=x4(), ax=ALL, dt="f8"),
                          ev("PSNR", "n", {"red": red, "maxv": 1, "eps": "1/4"}), ev("metric", "n", x=x4(), y=x4(), ax=ALL, dt="f8")))
        y = g.choice([[1, 2, 4, 5], [1, 1, 4, 4], [2, 4, 4], [1, 2, 4, 1], [1, 2, 4, 4, 1], [4, 4], [1, 2, 1, 4], [1, 1, 1, 1]])
        eps.append(ep(ev("MSE", "m", {"red": "mean"}), ev("metric", "m", x=x4(), y=g.tensor(y, "f8"), ax=ALL, dt="f8"),
                      ev("PSNR", "n", {"red": "mean", "maxv": 1, "eps": 0}), ev("metric", "n", x=g.tensor(y, "f8"), y=x4(), ax=ALL, dt="f8"),
                      ev("AvgPoolNd", "b", {"ks": tree(3), "stride": NONE, "cip": True, "pad": NOPAD}),
                      ev("SSIM", "s", {"blur": {"k": "ref", "v": "b"}, "pad": NOPAD, "K1": "1/100", "K2": "3/100", "sample": True, "crop": True}),
                      ev("ssim", "s", {"full": False}, x=x4(), y=g.tensor(y, "f8"), ax=SEQ(-1, -2), rx=ALL, dt="f8"),
                      ev("MS_SSIM", "t", {"weights": [1], "prod": True, "eps": "1/1024", "blur": {"k": "ref", "v": "b"}, "pad": NOPAD, "K1": "1/100",
                                          "K2": "3/100", "sample": True, "crop": True}),
                      ev("ms_ssim", "t", x=x4(), y=g.tensor(y, "f8"), ax=SEQ(-1, -2), rx=ALL, dt="f8")))
        # batches, channels, rows or columns that would broadcast
        for cls in ("SSIM", "MS_SSIM", "MSE", "PSNR"):
            for i in range(3):
                s = [g.randint(2, 3), g.randint(2, 3), 4, g.randint(4, 5)]
                t = list(s)
                for a in g.sample(range(4), g.choice([1, 1, 2])):
                    t[a] = 1
                if i == 2:
                    t = s[1:] if g.chance(.5) else list(s)
                x, y = img(g, s), img(g, t)
                if g.chance(.5):
                    x, y = y, x
                o = {"SSIM": ev("SSIM", "m", {"blur": {"k": "ref", "v": "b"}, "pad": pstr("reflect"), "K1": "1/100", "K2": "3/100", "sample": True, "crop": False}),
                     "MS_SSIM": ev("MS_SSIM", "m", {"weights": [1] if g.chance(.5) else [1, 1], "prod": g.chance(.5), "eps": "1/1024", "blur": {"k": "ref", "v": "b"}, "pad": pstr("reflect"),
                                                    "K1": "1/100", "K2": "3/100", "sample": True, "crop": False}),
                     "MSE": ev("MSE", "m", {"red": "mean"}), "PSNR": ev("PSNR", "m", {"red": "mean", "maxv": 1, "eps": 1})}[cls]
                c = ev(cls.lower(), "m", {"full": False}, x=x, y=y, ax=SEQ(-2, -1), rx=ALL, dt="f8") if "SSIM" in cls else ev("metric", "m", x=x, y=y, ax=ALL, dt="f8")
                eps.append(ep(avg(g, "b", 2, None, True, NOPAD), o, c))
        # too small for the coarsest window
        for H in (6, 7):
            xs = img(g, [H, H + 2])
            eps.append(ep(ev("AvgPoolNd", "b", {"ks": tree(3), "stride": NONE, "cip": True, "pad": NOPAD}),
                          ev("MS_SSIM", "t", {"weights": ["1/2", "1/2"], "prod": True, "eps": "1/1024", "blur": {"k": "ref", "v": "b"}, "pad": NOPAD,
                                              "K1": "1/4", "K2": "1/4", "sample": True, "crop": True}),
                          ev("ms_ssim", "t", x=xs, y=xs, ax=ALL, rx=ALL, dt="f8")))
        # unequal parameter lists
        L = lambda n, v: [v] * n
        a, b = g.choice([(1, 2), (2, 3), (3, 2), (2, 2), (3, 3), (1, 1)])
        eps.append(ep(padder("p", L(a, (1, 1)), L(b, "reflect")), padder("p2", L(a, (1, 1)), "constant", L(b, (0, 1))),
                      padder("p3", 1, L(a, "reflect"), 0, L(b, (0, 1))), padder("p4", L(a, (1, 1)), "maximum", 0, 0, L(b, (1, None))),
                      ev("SeparablePoolNd", "f", {"kernel": tree(L(a, [1, 2])), "stride": tree(L(b, 1)), "pad": NOPAD}),
                      ev("AvgPoolNd", "f2", {"ks": tree(L(a, 2)), "stride": tree(L(b, 1)), "cip": True, "pad": NOPAD}),
                      ev("GaussianPoolNd", "f3", {"ks": tree(L(a, 3)), "sigma": tree(L(b, 1)), "order": tree(0), "stride": NONE, "pad": NOPAD}),
                      ev("GaussianPoolNd", "f4", {"ks": tree(3), "sigma": tree(L(a, 1)), "order": tree(L(b, 1)), "stride": NONE, "pad": NOPAD}),
                      ev("conv_nd", "", {"n": tree(L(a, 9)), "k": tree(L(b, 2)), "s": tree(1), "d": tree(1)}),
                      ev("covn", "", {"n": tree(L(a, 4)), "pw": tree(L(b, (1, 1))), "k": tree(2), "s": tree(1)})))
        # pooling with lists that do not match the axes
        m = g.randint(1, 3)
        eps.append(ep(ev("AvgPoolNd", "f", {"ks": tree(L(2, 2)), "stride": NONE, "cip": g.chance(.5), "pad": g.choice([NOPAD, pstr("zeros")])}),
                      ev("pool", "f", x=x4(), ax=SEQ(*range(m)), dt="f8") if m != 1 else ev("pool", "f", x=x4(), ax=INT(3), dt="f8")))
        # Bayer
        sa = g.choice(SAS)
        bad = g.choice(["RGB", "RRGB", "GGRB", "RGBG", "BRGG", "", "RGGBX", "XGGB", "RBGG", "GBGR", "GRGB"])
        for q_ in (sa, bad):
            eps.append(ep(ev("rgb1", "", {"sa": q_}, x=g.tensor([3, 4, 4], "f8"), dt="f8"), ev("rgb4", "", {"sa": q_}, x=g.tensor([3, 4, 4], "f8"), dt="f8"),
                          ev("down1", "", {"sa": q_}, x=g.tensor([1, 4, 4], "f8"), dt="f8"), ev("down4", "", {"sa": q_}, x=g.tensor([4, 2, 2], "f8"), dt="f8"),
                          ev("demosaic", "", {"sa": q_, "clamp": 1}, x=g.tensor([1, 4, 4], "f4"), dt="f4"),
                          ev("merge3", "", {"sa": q_}, x=g.tensor([1, 4, 4], "f8"), y=g.tensor([2, 4, 4], "f8"), dt="f8"),
                          ev("BayerConv2d", "c", {"k": 1, "ic": 1, "oc": 1, "bias": False, "banks": banks(g, 1, 1, 1, False)}, r={"dt": "f8"}),
                          ev("bconv", "c", {"sa": q_, "unshuffle": False}, x=g.tensor([1, 1, 2, 2], "f8"), dt="f8")))
        for c in range(0, 6):
            H, W = g.choice([(4, 4), (3, 4), (4, 3), (2, 2), (5, 5), (1, 2), (2, 6)])
            sh = lambda: [c, H, W] if g.chance(.6) else [2, c, H, W]
            if c == 0:
                continue
            X = lambda: g.tensor(sh(), "f8")
            eps.append(ep(ev("b14", "", x=X(), dt="f8"), ev("b41", "", x=X(), dt="f8"), ev("rgb1", "", {"sa": sa}, x=X(), dt="f8"),
                          ev("rgb4", "", {"sa": sa}, x=X(), dt="f8"), ev("down1", "", {"sa": sa}, x=X(), dt="f8"), ev("down4", "", {"sa": sa}, x=X(), dt="f8")))
        for sh in ([4], [2, 2], [4, 4]):
            X = g.tensor(sh, "f8")
            eps.append(ep(ev("b14", "", x=X, dt="f8"), ev("b41", "", x=X, dt="f8"), ev("rgb1", "", {"sa": sa}, x=X, dt="f8"), ev("down4", "", {"sa": sa}, x=X, dt="f8")))
        # same padding without sizes
        for st in (1, 2, 3, None):
            for n_ in (None, 5):
                eps.append(ep(ev("same_width", "", {"k": 3, "s": [] if st is None else [st], "n": [] if n_ is None else [n_]}),
                              padder("p", 0, "reflect"), ev("to_same", "p", {"ks": tree(3), "st": tree(st), "sz": tree(n_)})))
        # edge kernels and gradient axes
        eps.append(ep(ev("EdgeFilter", "e", {"edge": tree([[-1, 0, 1], [1, 0, -1]]), "smooth": tree([1, 2, 1]), "norm": False, "pad": NOPAD})))
        eps.append(ep(ev("EdgeFilter", "e", {"edge": tree([[-1, 0, 1]]), "smooth": tree([1, 2, 1]), "norm": False, "pad": NOPAD})))
        eps.append(ep(ev("EdgeFilter", "e", {"edge": tree([-1, 0, 1]), "smooth": tree([1, 2, 1]), "norm": False, "pad": NOPAD})))
        for ax in (SEQ(3), INT(2), SEQ(), SEQ(2, 3), SLICE(2), SLICE(3)):
            eps.append(ep(ev("Sobel", "e", {"norm": False, "pad": DEFPAD}), ev("all_components", "e", x=x4(), ax=ax, dt="f8"),
                          ev("magnitude", "e", {"eps": 0, "p": 1}, x=x4(), ax=ax, dt="f8"),
                          ev("Laplace", "l", {"pad": DEFPAD}), ev("magnitude", "l", {"eps": 0, "p": 1}, x=x4(), ax=ax, dt="f8", r={"fwd": 1})))
        eps.append(ep(ev("Sobel", "e", {"norm": False, "pad": DEFPAD}), ev("horizontal", "e", x=g.tensor([4], "f8"), dt="f8"),
                      ev("vertical", "e", x=g.tensor([4], "f8"), dt="f8")))
        # formats and nested data
        eps.append(ep(ev("fmt", "", {"pad": tree(((1, 2), (3, 4))), "src": "numpy", "dst": g.choice(["tf", "jax", ""]), "nd": [2]}),
                      ev("fmt", "", {"pad": tree((1, 2, 3, 4)), "src": g.choice(["pytorch", "np"]), "dst": "numpy", "nd": [2]}),
                      ev("fmt", "", {"pad": tree((1, 2, 3, 4)), "src": "torch", "dst": "numpy", "nd": []}),
                      ev("spec.new", "s", {"t": tree([[1, 2, 3], [4, 5, 6]]), "item": [2]}), ev("spec.new", "s2", {"t": tree([1, 2, 3]), "item": [2]}),
                      ev("rmap", "", {"t": tree([1, 2]), "depth": -1, "fn": "neg"})))
        # crops larger than the axis
        L_ = g.randint(2, 5)
        eps.append(ep(ev("crop", "", {"size": tree(L_ + g.choice([0, 1, 3])), "draws": 2, "seed": 5}, x=tens([2, L_], range(2 * L_)), ax=INT(1), dt="f8")))
    return eps


def C32(g, k):
    eps = []
    for _ in range(150 * k):
        kind = g.choice(["GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"])
        s = [g.randint(1, 2), g.randint(1, 2), g.randint(2, 5), g.randint(2, 5)]
        dt = g.choice(["f8", "f8", "f4"])
        x = g.tensor(s, dt, lim=4)
        y = dict(x) if g.chance(.15) else g.tensor(s, dt, lim=4)
        if kind == "WeightedDiv":
            dt = "f8"
            x, y = dict(x, dt=dt), dict(y, dt=dt)
        eps.append(ep(ev("Loss", "l", {"kind": kind, "ks": tree(g.choice([3, 5, 3, 1, 7])), "sigma": tree(g.choice([Fr(3, 4), 1, Fr(3, 2)])), "order": g.choice([1, 1, 2, 0])}),
                      ev("loss", "l", x=x, y=y, dt=dt), ev("loss", "l", x=y, y=x, dt=dt)))
    return eps


def C33(g, k):
    eps = []
    for _ in range(330 * k):
        s = g.choice([[g.randint(2, 12)], g.shape(lo=2, cap=80), [g.randint(2, 60)]]) if g.chance(.96) else [g.randint(100, 400)]
        dt = g.choice(["f8", "f8", "f4"])
        data = g.vals(prod(s)) if g.chance(.6) else [g.randint(-3, 3) for _ in range(prod(s))]
        if g.chance(.1):
            data = [g.randint(-4, 4)] * prod(s)
        eps.append(ep(ev("describe", "", {"rep": 1}, x=tens(s, data, dt, g.lay()))))
    for _ in range(30 * k):      # many samples: every item of the first axis repeated
        s = g.choice([[g.randint(1, 12)], [g.randint(1, 4), g.randint(1, 5)], [2, 1, g.randint(2, 4)]])
        rep = g.choice([g.randint(2, 40), 500, 3000, g.randint(5000, 40000)]) // prod(s) + 2
        x = tens(s, [g.randint(-30, 30) for _ in range(prod(s))], g.choice(["f8", "f4"]), "r0:%d" % (rep * s[0]))
        eps.append(ep(ev("describe", "", {"rep": rep}, x=x)))
    return eps


def C34(g, k):
    eps = []
    for _ in range(260 * k):
        n = g.randint(1, 5)
        w = [widths(g, 4) for _ in range(n)]
        nest = g.choice([list, tuple])(g.choice([list, tuple])(p) for p in w)
        m = g.randint(0, n)
        flat = g.choice([list, tuple])(g.randint(0, 4) for _ in range(2 * m))
        same = g.choice(["numpy", "torch"])
        bad = g.choice(["jax", "tf", "Torch", ""])
        s = [g.randint(1, 3) for _ in range(n)]
        evs = [ev("fmt", "", {"pad": tree(nest), "src": "numpy", "dst": "torch", "nd": g.choice([[], [n]])}),
               ev("fmt", "", {"pad": tree(flat), "src": "torch", "dst": "numpy", "nd": [n]}),
               ev("fmt", "", {"pad": tree(nest if same == "numpy" else flat), "src": same, "dst": same, "nd": []}),
               ev("fmt", "", {"pad": tree(nest), "src": "numpy", "dst": bad, "nd": []})]
        if prod([a + b[0] + b[1] for a, b in zip(s, w)]) < 400:
            x = g.tensor(s, "f8")
            evs += [ev("fmtpad", "", {"pad": tree(nest)}, x=x, dt="f8"), padder("p", w, "zeros"), ev("pad", "p", x=x, ax=ALL, dt="f8")]
        eps.append(ep(evs))
    return eps


def C35(g, k):
    eps, b = [], []
    for _ in range(300 * k):
        b.append(ev("ppd", "", {"diag": q(g.choice([533, 610, 686, Fr(g.randint(200, 8000), 4), g.randint(2000, 40000), Fr(g.randint(1, 400), 8)])), "hp": g.choice([480, 720, 1080, 2160, g.randint(1, 4000)]),
                                "wp": g.choice([640, 1280, 1920, 3840, g.randint(1, 8000)]), "dist": q(g.choice([Fr(1, 2), 1, 2, Fr(g.randint(1, 64), 16), g.randint(4, 30), g.randint(30, 400), Fr(g.randint(1, 32), 512)]))}))
    for i in range(0, len(b), 8):
        eps.append(ep(b[i:i + 8]))
    return eps


# ---------------------------------------------------------------------------
# A second device: histories of the other properties, with calls placed on it

ON_DEVICE = {"C01": 20, "C02": 14, "C03": 14, "C04": 15, "C05": 16, "C06": 20, "C07": 20, "C11": 15, "C12": 35, "C13": 25, "C15": 6,
             "C16": 20, "C17": 25, "C18": 18, "C20": 25, "C21": 12, "C22": 6, "C23": 15, "C24": 12, "C25": 8, "C26": 10, "C27": 15,
             "C28": 8, "C29": 6, "C30": 16, "C31": 15, "C32": 8, "C33": 8}


def placeable(e):
    return (bool(e["x"]["dt"]) or e["op"] == "covn") and not e.get("r", {}).get("np") and e["op"] != "axes"


def tensor_nodes(t):
    if isinstance(t, dict):
        if t.get("k") == "T":
            yield t
        for v in t.values():
            yield from tensor_nodes(v)
    elif isinstance(t, list):
        for v in t:
            yield from tensor_nodes(v)


def place(g, p):
    """The history with its calls on the second device, or on alternating devices."""
    p = json.loads(json.dumps(p))
    evs = [e for e in p["ev"] if placeable(e)]
    if not evs:
        return None
    mixed = len(evs) > 1 and g.chance(.5)
    for e in evs:
        e["dv"] = "accel" if not mixed or g.chance(.6) else ""
    for e in p["ev"]:
        if e["op"] in ("SeparablePoolNd", "EdgeFilter") and g.chance(.5):
            for t in tensor_nodes(e["a"]):
                t["dv"] = 1
    return p


def C36(g, k):
    eps = []
    for pid, n in ON_DEVICE.items():
        pool = [q for q in (place(g, p) for p in sample_of(g, GENS[pid](g, 1), 2 * n * k)) if q]
        eps += pool[:n * k]
    for _ in range(25 * k):       # one layer, kernels given as tensors, devices alternating call by call
        n = g.randint(1, 3)
        kern_ = dense([g.randint(-4, 4) for _ in range(n)], [n], g.choice("TTa"), "f8")
        evs = [ev("SeparablePoolNd", "f", {"kernel": kern_, "stride": tree(g.choice([None, 1, 2])), "pad": pad_choice(g, .5)})]
        for _ in range(4):
            s = g.shape(ranks=(2, 3), lo=3, hi=5, cap=60)
            evs.append(pool_event(g, "f", g.tensor(s, g.choice(["f8", "f4"])), g.axlist(len(s))))
        eps.append(place(g, ep(evs)))
    return eps


def sample_of(g, xs, n):
    return xs if len(xs) <= n else g.sample(xs, n)


GENS = {n: f for n, f in globals().items() if n.startswith("C") and n[1:].isdigit()}

"""Building blocks for events (see spec/Library.tla for their meaning)."""
import random
from fractions import Fraction as Fr

ALL = {"k": "all"}


def SEQ(*a):
    return {"k": "seq", "a": list(a)}


def INT(a):
    return {"k": "int", "a": a}


def SLICE(a=None, b=None, c=None):
    g = lambda v: [] if v is None else [v]
    return {"k": "slice", "a": g(a), "b": g(b), "c": g(c)}


CONTENT = SLICE(2)


def q(v):
    """A number in the specification's notation."""
    if isinstance(v, bool):
        return v
    if isinstance(v, str):
        return v
    f = v if isinstance(v, Fr) else Fr(v)
    if f.denominator == 1:
        n = f.numerator
        return n if abs(n) < 2 ** 31 else str(n)
    return "%d/%d" % (f.numerator, f.denominator)


def qs(vs):
    return [q(v) for v in vs]


NOX = {"s": [], "d": [0], "dt": ""}


def tens(shape, data, dt="f8", lay="c"):
    return {"s": list(shape), "d": qs(data), "dt": dt, "lay": lay}


def num(v):
    return {"k": "i", "v": q(v)}


def txt(v):
    return {"k": "t", "v": v}


NONE = {"k": "n", "v": 0}


def tree(v):
    """Python value -> tree: numbers, strings, None, lists ("l"), tuples ("u")."""
    if v is None:
        return NONE
    if isinstance(v, dict):
        return v
    if isinstance(v, str):
        return txt(v)
    if isinstance(v, list):
        return {"k": "l", "c": [tree(x) for x in v]}
    if isinstance(v, tuple):
        return {"k": "u", "c": [tree(x) for x in v]}
    return num(v)


def dense(v, shape, kind="a", dt=None):
    """ndarray ("a") or tensor ("T") node."""
    def build(x, s):
        return [num(y) if len(s) == 1 else {"k": kind, "s": list(s[1:]), "c": build(y, s[1:])} for y in x]
    r = {"k": kind, "s": list(shape), "c": build(v, shape)}
    if dt:
        r["dt"] = dt
    return r


NOPAD = {"k": "none", "v": ""}
DEFPAD = {"k": "default", "v": ""}


def pstr(m):
    return {"k": "str", "v": m}


def pref(i):
    return {"k": "ref", "v": i}


TREE_OPS = {"same_width", "fmt", "conv_1d", "conv_nd", "cov1", "gk", "describe", "ppd", "axes", "shape", "expand", "rmap",
            "spec.new", "spec.copy", "spec.same", "spec.get", "spec.iter", "spec.map", "spec.starmap", "spec.apply", "spec.zip", "spec.agg"}


def ev(op, id="", a=None, x=None, y=None, ax=ALL, rx=ALL, ct=None, dt="", r=None):
    e = {"op": op, "id": id, "a": a if a is not None else {"z": 0}, "x": x or NOX, "y": y or NOX, "ax": ax, "rx": rx,
         "ct": [ct] if ct else [], "dt": dt}
    if r:
        e["r"] = r
    if op in TREE_OPS:
        e["tree"] = True
    return e


PADMODES = ["replicate", "circular", "periodize", "symmetric", "reflect"]
ODDMODES = ["antisymmetric", "odd_reflect", "odd_symmetric", "smooth"]
FILLMODES = ["constant", "zeros", "linear_ramp"]
STATMODES = ["maximum", "minimum", "mean", "median"]
FNMODES = ["fn:count", "fn:edge2", "fn:swap"]
INTMODES = PADMODES + ODDMODES + ["constant", "zeros", "maximum", "minimum", "median"] + FNMODES
FLOATMODES = PADMODES + ODDMODES + FILLMODES + STATMODES + FNMODES


class Gen(random.Random):
    def dy(self, lim=16, den=(1, 1, 2, 4, 8)):
        d = self.choice(den)
        return Fr(self.randint(-lim * d, lim * d), d)

    def pos(self, lim=8, den=(1, 2, 4, 8)):
        d = self.choice(den)
        return Fr(self.randint(1, lim * d), d)

    def chance(self, p):
        return self.random() < p

    def vals(self, n, dt="f8", lim=16):
        if dt == "bool":
            return [self.randint(0, 1) for _ in range(n)]
        if dt == "c16":
            return [self.randint(-50, 50) + 2 ** 20 * self.randint(-50, 50) for _ in range(n)]
        if dt == "u1":
            return [self.randint(0, 200) for _ in range(n)]
        if dt[0] == "i":
            return [self.randint(-50, 50) for _ in range(n)]
        if dt in ("f2", "b2"):
            return [self.dy(8, (1, 2, 4)) for _ in range(n)]
        return [self.dy(lim) for _ in range(n)]

    def lay(self):
        return self.choice("cccctsol")

    def distinct(self, n, step=1):
        v = [Fr(i) * step for i in range(n)]
        self.shuffle(v)
        return v

    def shape(self, rank=None, lo=1, hi=5, cap=150, ranks=(1, 2, 2, 3, 3, 4)):
        if rank is None and self.chance(.08):
            s = self.odd_shape(lo, cap, ranks)
            if s:
                return s
        rank = self.choice(ranks) if rank is None else rank
        while True:
            s = [self.randint(lo, hi) for _ in range(rank)]
            n = 1
            for v in s:
                n *= v
            if n <= cap:
                return s

    def odd_shape(self, lo, cap, ranks):
        """Uncommon shapes: a long axis, all axes equal, or five and six axes."""
        if self.chance(.25):
            r = self.choice([v for v in ranks if 2 <= v <= 4] or [min(ranks)])
            s = [max(lo, self.randint(2, 5 if r < 3 else 3))] * r
            return s if prod(s) <= cap else None
        if max(ranks) >= 4 and self.chance(.5):
            s = [max(lo, self.choice([1, 1, 2, 2, 3])) for _ in range(self.choice([5, 5, 6]))]
        else:
            r = self.choice([v for v in ranks if v <= 3] or [min(ranks)])
            s = [max(lo, self.choice([1, 1, 2, 3])) for _ in range(r)]
            s[self.randrange(r)] = self.randint(6, 24)
        return s if prod(s) <= cap else None

    def tensor(self, shape, dt="f8", lay=None, lim=16, data=None):
        n = 1
        for v in shape:
            n *= v
        if data is None and lay is None and n > 1 and self.chance(.05):
            return self.expanded(shape, dt, lim)
        return tens(shape, data if data is not None else self.vals(n, dt, lim), dt, self.lay() if lay is None else lay)

    def expanded(self, shape, dt, lim):
        """A tensor that repeats one axis in memory (stride 0)."""
        a = self.choice([i for i, v in enumerate(shape) if v > 1])
        v = self.vals(prod(shape[:a] + shape[a + 1:]), dt, lim)
        inner = prod(shape[a + 1:])
        d = [v[i // (inner * shape[a]) * inner + i % inner] for i in range(prod(shape))]
        return tens(shape, d, dt, "e%d" % a)

    def axlist(self, n, k=None):
        """A list of k distinct axes of rank n in random order, some negative."""
        k = self.randint(1, n) if k is None else k
        a = self.sample(range(n), k)
        return [v if self.chance(0.6) else v - n for v in a]

    def axarg(self, n, sel):
        """Some way of writing the axis list sel (as given, mixed signs)."""
        norm = [v % n for v in sel]
        opts = [SEQ(*sel)]
        if len(sel) == 1:
            opts += [INT(sel[0])] * 2
        if norm == list(range(n)):
            opts += [ALL] * 2
        if norm == list(range(norm[0], norm[0] + len(norm))):
            a, b = norm[0], norm[-1] + 1
            opts.append(SLICE(a if self.chance(.7) else a - n if a else None, None if b == n and self.chance(.6) else b))
        if norm == list(range(norm[0], norm[0] - len(norm), -1)) and norm[-1] >= 0:
            opts.append(SLICE(norm[0], None if norm[-1] == 0 else norm[-1] - 1, -1))
        return self.choice(opts)


def padder(id, pw=0, mode="constant", cv=0, ev_=0, sl=None, r=None):
    return ev("Padder", id, {"pw": tree(pw), "mode": tree(mode), "cv": tree(cv), "ev": tree(ev_), "sl": tree(sl)}, r=r)


def prod(s):
    n = 1
    for v in s:
        n *= v
    return n


def norms(n, sel):
    return [v % n for v in sel]


def ep(*evs):
    out = []
    for e in evs:
        if isinstance(e, list):
            out += e
        else:
            out.append(e)
    return {"ev": out}

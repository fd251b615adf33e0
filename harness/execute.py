"""Executes recorded-call requests ("events") against the real torchimage code.

usage: execute.py IN.json OUT.ndjson [START]
Input: a list of episodes {"id":..., "ev":[event...]}.  Output: one line per
episode, {"i": index, "out": [result...]}; results are exact (every float is
written as the rational number it is).  Every public call of an event is run
under a time limit; an exception is a result like any other.
"""
import contextlib
import copy
import json
import os
import resource
import signal
import sys
import time
from fractions import Fraction

sys.dont_write_bytecode = True
import numpy as np
import torch

from defaults import DEFAULTS

torch.set_num_threads(1)
torch.use_deterministic_algorithms(True, warn_only=True)
torch.utils.deterministic.fill_uninitialized_memory = True
import warnings
warnings.filterwarnings("ignore")

DT = {"f8": torch.float64, "f4": torch.float32, "f2": torch.float16, "i8": torch.int64, "i4": torch.int32,
      "i2": torch.int16, "i1": torch.int8, "u1": torch.uint8, "b2": torch.bfloat16, "bool": torch.bool, "c16": torch.complex128}
DN = {v: k for k, v in DT.items()}
LIMIT = float(os.environ.get("CALL_LIMIT", "20"))
BUDGET = float(os.environ.get("EXEC_BUDGET", "400"))


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


HUGE = 2 ** 1100      # the specification's name for infinity (3 * HUGE: not a number), where samples are only moved
IMAG = 2 ** 20        # a complex sample a + b j is the number a + b * IMAG (a, b whole, |a| small)


def frac(v):
    if isinstance(v, str):
        return Fraction(v)
    return Fraction(v)


def num_of(v):
    f = frac(v)
    if abs(f) >= HUGE:
        return float("nan") if abs(f) > HUGE else float("inf") if f > 0 else float("-inf")
    return int(f) if f.denominator == 1 else float(f)


def complex_of(v):
    f = frac(v)
    b = round(f / IMAG)
    return complex(float(f - b * IMAG), float(b))


def enc_num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v if abs(v) < 2 ** 31 else str(v)
    v = float(v)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    n, d = v.as_integer_ratio()
    if d == 1:
        return n if abs(n) < 2 ** 31 else str(n)
    return "%d/%d" % (n, d)


ACC = None       # the simulated accelerator (harness/accel.py), once an episode needs it


def accel():
    global ACC
    if ACC is None:
        import accel as ACC_
        ACC = ACC_
    return ACC


def near(t):
    return ACC.near(t) if ACC is not None else t


SPECIAL = False  # whether the present call has samples that are not finite


def enc_tensor(t):
    if not torch.is_tensor(t):
        t = torch.as_tensor(t)
    dv = "" if t.device.type == "cpu" else t.device.type
    t = near(t)
    dt = DN.get(t.dtype, str(t.dtype))
    enc = (lambda v: enc_num(v)) if not SPECIAL else lambda v: str(3 * HUGE) if v != v else str(HUGE) if v == float("inf") else str(-HUGE) if v == -float("inf") else enc_num(v)
    if dt == "c16":
        one, enc = enc, lambda z: one(float(Fraction(z.real) + Fraction(z.imag) * IMAG))
    return {"s": list(t.shape), "d": [enc(v) for v in t.detach().reshape(-1).tolist()], "dt": dt, "dv": dv}


def enc_tree(o):
    if o is None:
        return {"k": "n", "v": 0}
    if isinstance(o, str):
        return {"k": "t", "v": o}
    if isinstance(o, (bool, int, float, np.floating, np.integer)):
        return {"k": "i", "v": enc_num(o.item() if hasattr(o, "item") else o)}
    if isinstance(o, (np.ndarray, torch.Tensor)):
        if o.ndim == 0:
            return {"k": "i", "v": enc_num(o.item())}
        return {"k": "u", "c": [enc_tree(x) for x in o]}
    if isinstance(o, (list, tuple)):
        return {"k": "u", "c": [enc_tree(x) for x in o]}
    if callable(o) and hasattr(o, "fn_name"):
        return {"k": "t", "v": o.fn_name}
    return {"k": "t", "v": "<" + type(o).__name__ + ">"}


def pad_fn(name):
    """User padding functions, as documented: fill y outside idx[dim] in place."""
    def sl(y, idx, dim, a, b):
        ix = [slice(None)] * y.ndim
        for d in range(y.ndim):
            ix[d] = idx[d]
        ix[dim] = slice(a, b)
        return tuple(ix)

    def f(y, idx, dim):
        head, tail, n = idx[dim].start, idx[dim].stop, y.shape[dim]
        first = y[sl(y, idx, dim, head, head + 1)].clone()
        last = y[sl(y, idx, dim, tail - 1, tail)].clone()
        for k in range(head):
            d = head - k
            y[sl(y, idx, dim, k, k + 1)] = d if name == "fn:count" else first * 2 if name == "fn:edge2" else last
        for k in range(tail, n):
            d = k - tail + 1
            y[sl(y, idx, dim, k, k + 1)] = -d if name == "fn:count" else last * 2 if name == "fn:edge2" else first
    f.fn_name = name
    return f


def plain(t):
    return [plain(x) for x in t["c"]] if "c" in t else num_of(t["v"])


def tree(t):
    k = t["k"]
    if k == "i":
        v = num_of(t["v"])
        v = float(v) if t.get("f") else bool(v) if t.get("b") else v
        return v if not t.get("np") or isinstance(v, bool) else np.float64(v) if isinstance(v, float) else np.int64(v)
    if k == "n":
        return None
    if k == "t":
        return pad_fn(t["v"]) if t["v"].startswith("fn:") else t["v"]
    c = [tree(x) for x in t["c"]] if k in "lu" else plain(t)
    if k == "l":
        return c
    if k == "u":
        return tuple(c)
    if k == "a":
        return np.array(c, dtype=t.get("dt") or None).reshape(t["s"])
    if k == "T":
        v = torch.tensor(c, dtype=DT[t["dt"]] if t.get("dt") else None).reshape(t["s"])
        return accel().to_dev(v) if t.get("dv") else v
    raise KeyError(k)


def make_tensor(x):
    dt = DT[x["dt"] or "f8"]
    vals = [num_of(v) for v in x["d"]] if x["dt"] != "c16" else [complex_of(v) for v in x["d"]]
    t = torch.tensor(vals, dtype=dt).reshape(x["s"])
    lay = x.get("lay", "c")
    if lay == "t" and t.ndim > 1:       # transposed storage
        p = list(range(t.ndim))[::-1]
        t = t.permute(p).contiguous().permute(p)
    elif lay == "s" and t.ndim > 0:     # strided view into a larger buffer
        big = torch.full([2 * n + 1 for n in t.shape], 77, dtype=dt)
        v = big[tuple(slice(1, None, 2) for _ in t.shape)]
        v.copy_(t)
        t = v
    elif lay[0] == "e":                 # one axis repeated in memory
        i = int(lay[1:])
        t = t.narrow(i, 0, 1).clone().expand(t.shape)
    elif lay == "l" and t.ndim > 2:     # channels last
        t = t.movedim(1, -1).contiguous().movedim(-1, 1)
    elif lay == "o":                    # offset into a larger buffer
        big = torch.full([t.numel() + 5], 77, dtype=dt)
        big[3:3 + t.numel()] = t.reshape(-1)
        t = big[3:3 + t.numel()].view(t.shape)
    elif lay[0] == "r":                 # many items along a batch axis, repeating the given ones in turn
        a, n = tiling(lay)
        t = t.index_select(a, torch.arange(n) % t.shape[a])
    return t


def shared(x, y, how):
    """x and y as tensors that share memory (the values stay what they are)."""
    if how == "same":
        v = x
    elif how == "view":
        v = x.view(x.shape)
    elif how == "next" and x.ndim:      # overlapping windows of one buffer
        big = torch.cat([x, y.narrow(-1, y.shape[-1] - 1, 1)], -1)
        x, v = big[..., :-1], big[..., 1:]
    else:                               # the same memory in another order
        v = x.transpose(*how) if isinstance(how, list) and x.ndim > max(how) else y
    return (x, v) if v.shape == y.shape and v.dtype == y.dtype and torch.equal(v, y) else (x, y)


def tiling(lay):
    a, n = lay[1:].split(":")
    return int(a), int(n)


def few(t, x):
    """The result for the given items when every repeated item got the same one;
    an item that differs is put in the place of the one it should equal."""
    a, n = tiling(x["lay"])
    m = x["s"][a]
    if t.ndim <= a or t.shape[a] != n:
        return t
    same = t.index_select(a, torch.arange(n, device=t.device) % m)
    f = t.dtype.is_floating_point
    tol = {torch.float64: 1e-11, torch.float32: 1e-5}.get(t.dtype, 1e-2) if f else 0
    bad = ((t - same).abs() > tol * same.abs().max().clamp(min=1)) if f else t != same
    bad = bad | (t.isnan() != same.isnan()) if f else bad
    if t.ndim > 1:
        bad = bad.movedim(a, 0).reshape(n, -1).any(1)
    out = t.narrow(a, 0, m).clone()
    for i in bad.nonzero()[:1].reshape(-1).tolist():
        out.select(a, i % m).copy_(t.select(a, i))
    return out


def axes(ax, kind="tuple"):
    k = ax["k"]
    if k == "all":
        return None
    if k == "int":
        return ax["a"]
    if k == "slice":
        g = lambda q: q[0] if q else None
        return slice(g(ax["a"]), g(ax["b"]), g(ax["c"]))
    a = tuple(ax["a"])
    if kind == "list":
        return list(a)
    if kind == "np":
        return np.array(a, dtype=int)
    if kind == "npi":
        return tuple(np.int64(v) for v in a)
    if kind == "range" and len(a) > 1 and all(q - p == a[1] - a[0] != 0 for p, q in zip(a, a[1:])):
        return range(a[0], a[-1] + (1 if a[1] > a[0] else -1), a[1] - a[0])
    return a


def opt(o):
    return o[0] if o else None


class Env:
    def __init__(self):
        self.h = {}
        self.results = []      # everything returned so far in this history, and copies of it

    def pad_arg(self, p):
        if p["k"] == "none":
            return None
        if p["k"] == "str":
            return p["v"]
        return self.h[p["v"]]

    def pad_kw(self, p, name="same_padder"):
        return {} if p["k"] == "default" else {name: self.pad_arg(p)}

    def blur(self, b):
        return self.h[b["v"]] if b["k"] == "ref" else b["v"]


def is_default(v, d):
    if d is None or isinstance(d, (str, bool)):
        return type(v) is type(d) and v == d
    return isinstance(v, (int, float)) and not isinstance(v, bool) and v == d


def args(e, **kw):
    if not e.get("r", {}).get("short"):
        return kw
    d = DEFAULTS[e["op"]]
    return {k: v for k, v in kw.items() if not (k in d and is_default(v, d[k]))}


# ---------------------------------------------------------------------------
# Each handler returns (tensors, tree-or-None); args holds live argument objects
# that must not change.

def new(env, e, obj):
    env.h[e["id"]] = obj
    return [], None


def do(env, e, x, y, held):
    """Perform the event's call.  `held` collects mutable argument objects."""
    op, a, r = e["op"], e["a"], e.get("r", {})
    ax = axes(e["ax"], r.get("axt", "tuple"))
    rx = axes(e["rx"], r.get("axt", "tuple"))

    def T(t):
        v = tree(t)
        held.append((v, copy.deepcopy(v) if not callable(v) else v))
        return v

    def call_axes(f, *args, **kw):
        if r.get("noax"):
            return f(*args, **kw)
        return f(*args, axes=ax, **kw)

    if op == "Padder":
        from torchimage.padding import Padder
        kw = {}
        for name, key in (("pad_width", "pw"), ("mode", "mode"), ("constant_values", "cv"),
                          ("end_values", "ev"), ("stat_length", "sl")):
            if key not in r.get("omit", []):
                kw[name] = T(a[key])
        return new(env, e, Padder(**args(e, **kw)))
    if op in ("SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd"):
        import torchimage.pooling as P
        kw = env.pad_kw(a["pad"])
        if op == "SeparablePoolNd":
            kw["kernel"] = T(a["kernel"])
        else:
            kw["kernel_size"] = T(a["ks"])
        if op == "GaussianPoolNd":
            kw["sigma"] = T(a["sigma"])
            kw["order"] = T(a["order"])
        if op == "AvgPoolNd" and "cip" not in r.get("omit", []):
            kw["count_include_pad"] = a["cip"]
        if "stride" not in r.get("omit", []):
            kw["stride"] = T(a["stride"])
        return new(env, e, getattr(P, op)(**args(e, **kw)))
    if op in ("EdgeFilter", "Sobel", "Prewitt", "Scharr", "Farid", "GaussianGrad", "Laplace", "LoG"):
        import torchimage.filtering.edges as E
        kw = env.pad_kw(a["pad"])
        if op == "EdgeFilter":
            o = E.EdgeFilter(T(a["edge"]), T(a["smooth"]), **args(e, normalize=a["norm"], **kw))
        elif op == "GaussianGrad":
            o = E.GaussianGrad(T(a["ks"]), T(a["sigma"]), **args(e, edge_kernel_size=opt(a["eks"]),
                               edge_sigma=num_of(a["esg"][0]) if a["esg"] else None,
                               normalize=a["norm"], edge_order=a["order"], **kw))
        elif op == "Laplace":
            o = E.Laplace(**args(e, **kw))
        elif op == "LoG":
            o = E.LaplacianOfGaussian(T(a["ks"]), T(a["sigma"]), **args(e, **kw))
        else:
            o = getattr(E, op)(**args(e, **({} if r.get("defnorm") else {"normalize": a["norm"]}), **kw))
        return new(env, e, o)
    if op == "UnsharpMask":
        from torchimage.filtering import UnsharpMask
        return new(env, e, UnsharpMask(env.h[a["blur"]], **args(e, amount=num_of(a["amount"]), threshold=num_of(a["threshold"]),
                                                            padder=env.pad_arg(a["pad"]))))
    if op == "MSE":
        from torchimage.metrics import MSE
        return new(env, e, MSE(**args(e, reduction=a["red"])))
    if op == "PSNR":
        from torchimage.metrics import PSNR
        return new(env, e, PSNR(**args(e, max_value=num_of(a["maxv"]), eps=num_of(a["eps"]), reduction=a["red"])))
    if op in ("SSIM", "MS_SSIM"):
        import torchimage.metrics as M
        kw = dict(blur=env.blur(a["blur"]), padder=env.pad_arg(a["pad"]), K1=num_of(a["K1"]), K2=num_of(a["K2"]),
                  use_sample_covariance=a["sample"], crop_border=a["crop"])
        if op == "MS_SSIM":
            w = tuple(num_of(v) for v in a["weights"])
            kw.update(use_prod=a["prod"], eps=num_of(a["eps"]))
            if not r.get("defweights"):
                kw["weights"] = w if r.get("wt", "tuple") == "tuple" else list(w)
        return new(env, e, getattr(M, op)(**args(e, **kw)))
    if op == "BayerConv2d":
        import torchimage.cfa as C
        o = getattr(C, r.get("cls", "BayerConv2d"))(a["ic"], a["oc"], a["k"], a["bias"])
        o = o.to(DT[r.get("dt", "f8")])
        with torch.no_grad():
            for site, bank in a["banks"].items():
                c = o.conv_dict[site]
                c.weight.copy_(torch.tensor([[num_of(v) for v in w] for w in bank["w"]], dtype=torch.float64)
                               .reshape(a["oc"], a["ic"], a["k"], a["k"]))
                if a["bias"]:
                    c.bias.copy_(torch.tensor([num_of(v) for v in bank["b"]], dtype=torch.float64))
        return new(env, e, o)
    if op == "Loss":
        import torchimage.contrib.edge_loss as L
        return new(env, e, getattr(L, a["kind"])(T(a["ks"]), T(a["sigma"]), a["order"]))

    # --- calls on objects
    if op == "pad":
        return [call_axes(env.h[e["id"]].forward, x)], None
    if op == "pad_axis":
        return [env.h[e["id"]].pad_axis(x, a["i"], a["axis"])], None
    if op == "to_same":
        kw = {}
        if "st" not in r.get("omit", []):
            kw["stride"] = T(a["st"])
        if "sz" not in r.get("omit", []):
            kw["in_shape"] = T(a["sz"])
        p = env.h[e["id"]]
        q = p.to_same(T(a["ks"]), **args(e, **kw))
        assert q is p
        return [], None
    if op == "pool":
        return [call_axes(env.h[e["id"]].forward, x)], None
    if op == "to_filter":
        p = env.h[e["id"]]
        q = p.to_filter() if a["pad"]["k"] == "none" else p.to_filter(env.pad_arg(a["pad"]))
        assert q is p
        return [], None
    if op == "component":
        return [env.h[e["id"]].component(x, a["ea"], ax)], None
    if op == "all_components":
        return list(env.h[e["id"]].all_components(x, **args(e, axes=ax))), None
    if op == "horizontal":
        return [env.h[e["id"]].horizontal(x)], None
    if op == "vertical":
        return [env.h[e["id"]].vertical(x)], None
    if op == "magnitude":
        o = env.h[e["id"]]
        if r.get("fwd"):
            return [o.forward(x, ax) if type(o).__name__ == "Laplace" else o.forward(x, **args(e, axes=ax))], None   # Laplace has no default
        return [o.magnitude(x, **args(e, axes=ax, epsilon=num_of(a["eps"]), p=a["p"]))], None
    if op == "unsharp":
        return [call_axes(env.h[e["id"]].forward, x)], None
    if op == "metric":
        if r.get("noax"):
            return [env.h[e["id"]](x, y)], None
        return [env.h[e["id"]].forward(x, y, **args(e, reduce_axes=ax))], None
    if op == "ssim":
        o = env.h[e["id"]]
        kw = {} if r.get("noax") else dict(content_axes=ax, reduce_axes=rx)
        v = o.forward(x, y, full=a["full"], **kw)
        return (list(v) if a["full"] else [v]), None
    if op == "ms_ssim":
        kw = {} if r.get("noax") else dict(content_axes=ax, reduce_axes=rx)
        return [env.h[e["id"]].forward(x, y, **kw)], None
    if op == "bconv":
        o = env.h[e["id"]]
        if ACC is not None:
            o = o.to(ACC.DEV if e.get("dv") else "cpu")
        sa = r.get("sa", a["sa"])
        return [o.forward_unshuffle(x, sa) if a["unshuffle"] and r.get("how") == "unshuffle" else o(x, sa)], None
    if op == "loss":
        return [env.h[e["id"]](x, y)], None

    # --- functions
    if op == "conv1":
        from torchimage.pooling.operator import any_conv_1d
        w = torch.tensor([num_of(v) for v in a["w"]], dtype=x.dtype, device=x.device)
        held.append((w, w.clone()))
        return [any_conv_1d(x, w, dim=a["dim"], stride=a["stride"], dilation=a["dil"])], None
    if op in ("b14", "b41", "rgb1", "rgb4", "down1", "down4"):
        import torchimage.cfa.utils as U
        sa = r.get("sa", a.get("sa"))
        f = {"b14": U.bayer_1c_to_4c, "b41": U.bayer_4c_to_1c, "rgb1": U.rgb_to_1c_bayer, "rgb4": U.rgb_to_4c_bayer,
             "down1": U.downsample_1c_bayer_to_rgb, "down4": U.downsample_4c_bayer_to_rgb}[op]
        return [f(x) if op in ("b14", "b41") else f(x, sa)], None
    if op == "demosaic":
        from torchimage.cfa import demosaic
        if ACC is not None:
            demosaic.to(ACC.DEV if e.get("dv") else "cpu")
        if r.get("defclamp"):
            return [demosaic(x, r.get("sa", a["sa"])).detach()], None
        return [demosaic(x, r.get("sa", a["sa"]), **args(e, clamp=num_of(a["clamp"])))], None
    if op == "merge3":
        from torchimage.cfa import last_step_demosaic
        return [last_step_demosaic(x, y, r.get("sa", a["sa"]))], None
    if op == "poly":
        from torchimage.misc import poly1d
        p = [num_of(v) for v in a["p"]]
        if r.get("pt") == "tuple":
            p = tuple(p)
        held.append((p, copy.deepcopy(p)))
        return [poly1d(x, p)], None
    if op == "outer":
        from torchimage.misc import outer
        if r.get("np"):
            return [torch.as_tensor(outer(x.numpy(), y.numpy()))], None
        return [outer(x, y)], None
    if op == "spow":
        from torchimage.misc import safe_power
        X = num_of(e["x"]["d"][0]) if r.get("xnum") else x
        Y = num_of(e["y"]["d"][0]) if r.get("ynum") else y
        kw = {} if r.get("defeps") else args(e, epsilon=num_of(a["eps"]))
        return [safe_power(X, Y, **kw)], None
    if op == "same_width":
        from torchimage.padding.utils import same_padding_width
        return [], tuple(same_padding_width(a["k"], **args(e, stride=opt(a["s"]), in_size=opt(a["n"]))))
    if op == "fmt":
        from torchimage.padding.utils import pad_width_format
        return [], pad_width_format(T(a["pad"]), **args(e, source=a["src"], target=a["dst"], ndim=opt(a["nd"])))
    if op == "fmtpad":
        from torchimage.padding.utils import pad_width_format
        flat = pad_width_format(T(a["pad"]), source="numpy", target="torch")
        return [torch.nn.functional.pad(x, tuple(flat))], None
    if op == "conv_1d":
        from torchimage.shapes.conv_like import conv_1d
        return [], conv_1d(a["n"], a["k"], a["s"], a["d"])
    if op == "conv_nd":
        from torchimage.shapes.conv_like import conv_nd
        v = conv_nd(T(a["n"]), T(a["k"]), T(a["s"]), T(a["d"]))
        return [], (v.data if v.is_item else [v[i] for i in range(len(v))])
    if op == "cov1":
        from torchimage.shapes.conv_like import n_original_elements_1d
        return [], list(n_original_elements_1d(a["n"], (a["pb"], a["pa"]), a["k"], a["s"]))
    if op == "covn":
        from torchimage.shapes.conv_like import n_original_elements_nd
        kw = {"dtype": DT[r["dt"]]} if "dt" in r else {}
        if e.get("dv"):
            kw["device"] = accel().DEV
        return [n_original_elements_nd(T(a["n"]), T(a["pw"]), T(a["k"]), T(a["s"]), **kw)], None
    if op == "gk":
        from torchimage.pooling.gaussian import gaussian_kernel_1d
        return [], list(gaussian_kernel_1d(a["ks"], num_of(a["sigma"]), a["order"]))
    if op == "describe":
        from torchimage.misc import describe
        d = describe(x)
        for v in d.values():
            assert isinstance(v, (int, float)), "describe: not a plain number"
        return [], [[k, d[k]] for k in sorted(d)]
    if op == "ppd":
        from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
        return [], pixels_per_degree(num_of(a["diag"]), a["hp"], a["wp"], num_of(a["dist"]))
    if op == "axes":
        from torchimage.utils.validation import check_axes
        v = check_axes(x.numpy() if r.get("np") else x, ax)
        assert isinstance(v, tuple)
        return [], v

    # --- nested data and specifications
    if op == "shape":
        from torchimage.utils.ragged import get_ragged_ndarray
        d, s = get_ragged_ndarray(T(a["t"]), **args(e, strict=a["strict"]))
        return [], (d, s)
    if op == "expand":
        from torchimage.utils.ragged import get_ragged_ndarray, expand_ragged_ndarray
        d, s = get_ragged_ndarray(T(a["t"]), strict=True)
        d, s = expand_ragged_ndarray(d, old_shape=s, new_shape=tuple(a["new"]))
        return [], (d, s)
    if op == "rmap":
        from torchimage.utils.ragged import apply_ragged_ndarray
        return [], apply_ragged_ndarray(T(a["t"]), FN[a["fn"]], a["depth"])
    if op.startswith("spec."):
        return spec_op(env, e, T)

    # --- random
    if op == "crop":
        from torchimage.random import random_crop
        size = T(a["size"])
        out = []
        for _ in range(2):
            g = torch.Generator().manual_seed(a["seed"])
            for _ in range(a["draws"]):
                out.append(random_crop(x, ax, size, generator=g).clone())
        return out, None
    if op in ("gauss", "poisson"):
        from torchimage.random import add_gauss_noise, add_poisson_gauss_noise
        G = lambda: torch.Generator().manual_seed(a["seed"])
        s = num_of(a["sigma"])
        g = G()
        if op == "gauss":
            f = lambda sg, gen: add_gauss_noise(x, sg, generator=gen).clone()
            return [f(s, g), f(s, G()), f(s, g), f(2 * s, G()), f(0, G())], None
        k = num_of(a["k"])
        f = lambda sg, gen: add_poisson_gauss_noise(x, k, sg, generator=gen).clone()
        return [f(s, g), f(s, G()), f(s, g), f(0, G()), f(2 * s, G())], None
    raise KeyError("unknown op " + op)


def _leaves(v):
    if isinstance(v, (list, tuple, np.ndarray, torch.Tensor)) and not (hasattr(v, "ndim") and v.ndim == 0):
        for q in v:
            yield from _leaves(q)
    else:
        yield v


def _isnum(q):
    return (isinstance(q, (int, float, np.number)) and not isinstance(q, bool)) or (hasattr(q, "ndim") and q.ndim == 0)


def _neg(v):
    if isinstance(v, (list, tuple, np.ndarray, torch.Tensor)) and not (hasattr(v, "ndim") and v.ndim == 0):
        return tuple(_neg(q) for q in v)
    return -v if _isnum(v) else v


def _sum(*v):
    return sum(Fraction(enc_num(q.item() if hasattr(q, "item") else q)) for q in _leaves(v) if _isnum(q))


class _F:
    pass


def _sumf(*v):
    s = _sum(*v)
    return int(s) if s.denominator == 1 else float(s)


def _kind(v):
    return ("truth" if isinstance(v, (bool, np.bool_)) else "real" if isinstance(v, (float, np.floating)) else "whole"
            if isinstance(v, (int, np.integer)) else "text" if isinstance(v, str) else "nothing" if v is None else "several")


FN = {
    "neg": lambda *v: _neg(v[0]),
    "sum": _sumf,
    "tup": lambda *v: tuple(v),
    "dup": lambda *v: (v[0], v[0]),
    "rev": lambda *v: tuple(reversed(v)),
    "last": lambda *v: v[-1],
    "none": lambda *v: None,
    "count": lambda *v: len(v),
    "kind": lambda *v: _kind(v[0]),
    "pairs": lambda *v: tuple((q, i + 1) for i, q in enumerate(v)),
}


def facts(sp):
    assert isinstance(sp.is_item, bool)
    assert sp.ndim == len(sp.index_shape) + len(sp.item_shape) == sp.index_ndim + sp.item_ndim
    assert tuple(sp.shape) == tuple(sp.index_shape) + tuple(sp.item_shape)
    return (len(sp), int(sp.is_item), tuple(sp.index_shape), tuple(sp.item_shape))


def spec_op(env, e, T):
    from torchimage.utils import NdSpec
    op, a = e["op"], e["a"]
    if op == "spec.new":
        d = T(a["t"])
        if "index" in a:
            sp = NdSpec(d, item_shape=tuple(a["item"]), index_shape=tuple(a["index"]))
        else:
            sp = NdSpec(d, item_shape=tuple(a["item"])) if not (a["item"] == [] and e.get("r", {}).get("defitem")) else NdSpec(d)
        env.h[e["id"]] = sp
        return [], facts(sp)
    if op == "spec.copy":
        sp = NdSpec(env.h[a["src"]], item_shape=(3, 5))
        env.h[e["id"]] = sp
        return [], facts(sp)
    if op == "spec.same":          # items are the user's own objects
        d = tree(a["t"])
        sp = NdSpec(d, item_shape=tuple(a["item"]))
        if sp.is_item:
            same = sp[0] is d and sp[-7] is d
        else:
            same = all(sp[i] is d[i] for i in range(-len(d), len(d)))
        return [], int(same)
    if op == "spec.get":
        p = tuple(a["path"])
        sp = env.h[e["id"]]
        try:
            return [], sp[p[0] if len(p) == 1 and e.get("r", {}).get("int", True) else p]
        except IndexError:
            raise
    if op == "spec.iter":
        return [], list(env.h[e["id"]])
    if op in ("spec.map", "spec.starmap"):
        src = env.h[a["src"]]
        f = FN[a["fn"]]
        sp = src.map(f) if op == "spec.map" else src.starmap(f)
        env.h[e["id"]] = sp
        return [], facts(sp)
    if op in ("spec.apply", "spec.zip"):
        sps = [env.h[i] for i in a["ids"]]
        sp = NdSpec.zip(*sps) if op == "spec.zip" else NdSpec.apply(FN[a["fn"]], *sps)
        env.h[e["id"]] = sp
        return [], facts(sp)
    if op == "spec.agg":
        sps = [env.h[i] for i in a["ids"]]
        s = NdSpec.agg_index_shape(*sps)
        n = NdSpec.agg_index_len(*sps, **({"allowed_index_ndim": tuple(a["allowed"])} if "allowed" in a else {}))
        return [], (tuple(s), n)
    raise KeyError(op)


def same_bits(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.is_complex():
        return same_bits(torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj()))
    return torch.equal(a, b) or bool(((a == b) | (a.isnan() & b.isnan())).all())


def unchanged(a, b):
    a, b = near(a), near(b)
    if isinstance(a, torch.Tensor):
        return torch.is_tensor(b) and same_bits(a, b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and (a == b).all()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(unchanged(p, q) for p, q in zip(a, b))
    if callable(a):
        return True
    return type(a) is type(b) and (a == b or (a != a and b != b))


def same_values(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(torch.allclose(a, b, rtol=1e-4 if a.dtype == torch.float32 else 1e-8, atol=1e-4 if a.dtype == torch.float32 else 1e-8, equal_nan=True))


@contextlib.contextmanager
def ambient(how):
    """Global settings of PyTorch a caller may have made."""
    if how == "grad":          # gradients recorded for nobody
        yield
    elif how == "inference":
        with torch.inference_mode():
            yield
    else:
        d = torch.get_default_dtype()
        try:
            if how in ("f8", "f2"):
                torch.set_default_dtype(DT[how])
            with torch.no_grad():
                yield
        finally:
            torch.set_default_dtype(d)


def reborn(env, how):
    """Every object replaced by a copy, the sharing among them kept."""
    if how == "pickle":
        import pickle
        try:
            env.h = pickle.loads(pickle.dumps(env.h))
            return
        except (pickle.PicklingError, AttributeError, TypeError) as ex:
            if "pickle" not in str(ex):      # functions made on the spot cannot be
                raise
    env.h = copy.deepcopy(env.h)


def run_event(env, e):
    global SPECIAL
    SPECIAL = bool(e.get("r", {}).get("special"))
    out = {"ok": False, "err": "", "ts": [], "tr": [], "mut": False, "g": [], "gd": False}
    held = []
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        place = accel().to_dev if e.get("dv") else (lambda t: t)
        x = make_tensor(e["x"]) if e["x"]["dt"] else None
        y = make_tensor(e["y"]) if e["y"]["dt"] else None
        if e.get("r", {}).get("alias") and not e["ct"]:
            x, y = shared(x, y, e["r"]["alias"])
        x0 = None if x is None else x.clone()
        y0 = None if y is None else y.clone()
        base = None if x is None or x._base is None else (x._base, x._base.clone())
        same = x is y
        x, y = (None if t is None else place(t) for t in (x, y))
        if same:
            y = x
        rg = bool(e["ct"])
        if rg:
            wrt = e["a"].get("wrt", "x")
            if wrt == "y":
                leaf = y = y.detach().requires_grad_(True)
            elif wrt == "x":
                leaf = x = x.detach().requires_grad_(True)
            else:
                leaf = env.h[e["id"]].conv_dict[wrt].weight
                leaf.grad = None
        plain_ts = None
        if e.get("r", {}).get("reborn"):
            reborn(env, e["r"]["reborn"])
        if rg or e.get("r", {}).get("grad"):
            if rg:
                with torch.no_grad():
                    plain_ts = [near(t).detach().clone() for t in do(env, e, place(make_tensor(e["x"])), place(make_tensor(e["y"])) if e["y"]["dt"] else None, [])[0]]
            ts, tr = do(env, e, x, y, held)
        else:
            with ambient(e.get("r", {}).get("amb")):
                ts, tr = do(env, e, x, y, held)
        ts = list(ts)
        if e["x"].get("lay", "c")[0] == "r":
            ts = [few(t, e["x"]) for t in ts]
        if rg and len(ts) >= 1:
            ct = make_tensor(e["ct"][0])
            keep = [t.detach().clone() for t in ts]
            out["gd"] = not (len(keep) == len(plain_ts) and all(same_values(near(p), q) for p, q in zip(keep, plain_ts)))
            if ts[0].requires_grad:
                ts[0].backward(place(ct.to(ts[0].dtype) if ct.shape == ts[0].shape else torch.zeros(ts[0].shape, dtype=ts[0].dtype)))
                if leaf.grad is not None:
                    out["g"] = [enc_num(v) for v in near(leaf.grad).reshape(-1).tolist()]
            ts = keep
        for t in ts:
            if not torch.is_tensor(t):
                raise TypeError("result is not a tensor but " + type(t).__name__)
        out["ts"] = [enc_tensor(t) for t in ts]
        if e.get("tree") or tr is not None:
            out["tr"] = [enc_tree(tr)]
        out["ok"] = True
        ts = [near(t) for t in ts]
        with torch.no_grad():
            out["mut"] = bool((x is not None and not unchanged(near(x.detach()), x0)) or (y is not None and not unchanged(near(y.detach()), y0))
                              or (base is not None and not unchanged(base[0], base[1]))
                              or any(not unchanged(p, q) for p, q in held)
                              or any(not same_bits(p, q) for p, q in env.results))
            env.results += [(t, t.detach().clone()) for t in ts]
    except CallTimeout:
        out.update(ok=False, err="timeout")
    except Exception as ex:
        if type(ex).__name__ == "Unsupported":      # beyond the simulated device: no verdict
            out.update(ok=False, err="unsupported", ts=[], tr=[], g=[])
            return out
        out.update(ok=False, err=type(ex).__name__, msg=str(ex)[:200], ts=[], tr=[], g=[])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return out


def main():
    src, dst = sys.argv[1], sys.argv[2]
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    eps = json.load(open(src))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    skipped = {"ok": False, "err": "skipped", "ts": [], "tr": [], "mut": False, "g": [], "gd": False}
    for m in ("padding", "pooling", "filtering", "metrics", "loss", "losses", "cfa", "misc", "random", "utils", "shapes"):
        try:                   # once, under the usual settings
            __import__("torchimage." + m)
        except Exception:
            pass
    timeouts, end = 0, time.monotonic() + BUDGET
    with open(dst, "a") as f:
        for i in range(start, len(eps)):
            env = Env()
            torch.manual_seed(12345)
            outs = []
            far = any(e.get("dv") for e in eps[i]["ev"])
            with (accel().Accelerator() if far else contextlib.nullcontext()):
                for e in eps[i]["ev"]:
                    if outs and outs[-1]["err"] == "unsupported":
                        outs.append(outs[-1])
                        continue
                    if timeouts >= 3 or time.monotonic() > end:
                        outs.append(skipped)
                        continue
                    outs.append(run_event(env, e))
                    timeouts += outs[-1]["err"] == "timeout"
            f.write(json.dumps({"i": i, "out": outs}) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)

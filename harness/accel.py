"""A simulated accelerator: a second device whose memory is kept by this process.

Tensors on it are wrappers with device "accel:0" around CPU tensors; every ATen
call that reaches them (or that names the device) is carried out on the wrapped
tensors.  As on a real device, a call that mixes devices fails, except where
PyTorch allows it: copies, numbers (0-dimensional CPU tensors) in point-wise
calls, and CPU index tensors.
"""
import torch
from torch.utils._mode_utils import no_dispatch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map
from torch.utils.backend_registration import _setup_privateuseone_for_python_backend

_setup_privateuseone_for_python_backend(rename="accel")
torch._C._set_only_lift_cpu_tensors(True)      # torch.tensor(..., device=...): build on the CPU, then move
DEV = torch.device("accel", 0)
CPU = torch.device("cpu")


class Unsupported(Exception):
    """The simulation cannot carry out this call: no verdict."""


class Remote(torch.Tensor):
    @staticmethod
    def __new__(cls, far):
        return torch.Tensor._make_wrapper_subclass(cls, far.shape, strides=far.stride(), storage_offset=far.storage_offset(),
                                                   dtype=far.dtype, device=DEV)

    def __init__(self, far):
        self.far = far

    def __repr__(self):
        return "Remote(%r)" % (self.far,)

    def tolist(self):
        return self.far.tolist()

    def numpy(self, *, force=False):
        if not force:
            raise TypeError("can't convert accel:0 device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first.")
        return self.far.numpy(force=True)

    def __array__(self, dtype=None):
        return self.numpy()

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return carry_out(func, args, kwargs or {})


class Accelerator(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return carry_out(func, args, kwargs or {})


def is_dev(d):
    return d is not None and torch.device(d).type == "accel"


def tensors(t):
    return [v for v in tree_flatten(t)[0] if isinstance(v, torch.Tensor)]


def clash(func):
    raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, accel:0 and cpu! (%s)" % func)


def check_devices(func, args, kw):
    name = func._schema.name.split("::")[1]
    ts = tensors((args, kw))
    if not any(isinstance(t, Remote) for t in ts):
        return
    if name in ("copy_", "_copy_from", "_copy_from_and_resize", "set_", "record_stream"):
        return
    if name in ("index", "_unsafe_index", "index_put", "index_put_", "_index_put_impl_", "_unsafe_index_put"):
        on = isinstance(args[0], Remote)
        if any(isinstance(t, Remote) and not on for t in tensors(args[1])):
            clash(func)
        if len(args) > 2 and torch.is_tensor(args[2]) and isinstance(args[2], Remote) != on and not (on and args[2].ndim == 0):
            clash(func)
        return
    near = [t for t in ts if not isinstance(t, Remote)]
    if not near:
        return
    written = [a for s, a in zip(func._schema.arguments, args) if s.alias_info is not None and s.alias_info.is_write and torch.is_tensor(a)]
    written += [v for k, v in kw.items() if k == "out" and torch.is_tensor(v)]
    if any(not isinstance(t, Remote) for t in written):
        clash(func)
    lenient = torch.Tag.pointwise in func.tags or name in ("fill_", "fill", "masked_fill", "masked_fill_", "where", "lerp", "clamp")
    if not lenient or any(t.ndim for t in near):
        clash(func)


def carry_out(func, args, kw):
    check_devices(func, args, kw)
    ins = [t for t in tensors((args, kw)) if isinstance(t, Remote)]
    name = func._schema.name.split("::")[1]
    dev = kw.get("device")
    out_far = bool(ins)
    if dev is not None:
        out_far = is_dev(dev)
    for s, a in zip(func._schema.arguments, args):      # a device given by position
        if isinstance(a, torch.device):
            out_far = is_dev(a)
    if name in ("copy_", "index_put_"):
        out_far = isinstance(args[0], Remote)
    if not ins and not out_far:
        return func(*args, **kw)
    down = lambda v: v.far if isinstance(v, Remote) else CPU if isinstance(v, torch.device) else v
    a2, k2 = tree_map(down, args), tree_map(down, kw)
    if name == "_pin_memory" or k2.get("pin_memory"):
        k2.pop("pin_memory", None)
    res = func(*a2, **k2)
    if torch.Tag.inplace_view in func.tags:      # the wrapper's own sizes follow
        with no_dispatch():
            func(*args, **kw)
    if any(t.far.shape != t.shape for t in ins):
        raise Unsupported("%s changes the shape of its argument" % func)
    known = {id(t.far): t for t in ins}

    def up(v):
        if not isinstance(v, torch.Tensor) or isinstance(v, Remote):
            return v
        if id(v) in known:
            return known[id(v)]
        return Remote(v) if out_far else v
    if name == "_to_copy" and dev is not None and not out_far:
        return tree_map(lambda v: v.clone() if isinstance(v, torch.Tensor) and id(v) in known else v, res)
    return tree_map(up, res)


def to_dev(t):
    """The tensor on the device, with the memory layout it has."""
    return Remote(t.detach())


def on_dev(t):
    return t.device.type == "accel"


def near(t):
    return t.far if isinstance(t, Remote) else t

"""A second device that computes, emulated on the CPU.

A ``Dev`` tensor says it lives on another device (``meta``, the one accelerator-like device every torch build knows), holds its
values in an ordinary CPU tensor, and computes with them. Within ``emulated()`` factories asked for that device create such tensors,
and an operation that mixes them with CPU tensors (other than numbers of no dimension, indices and explicit copies) fails as it does on a real
accelerator.
"""
from __future__ import annotations

import contextlib

import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map, tree_unflatten

DEV = torch.device("meta")
CPU = torch.device("cpu")
_INDEX = (torch.long, torch.int32, torch.bool, torch.uint8)


class Dev(torch.Tensor):
    @staticmethod
    def __new__(cls, v):
        return torch.Tensor._make_wrapper_subclass(cls, v.shape, strides=v.stride(), storage_offset=v.storage_offset(), dtype=v.dtype,
                                                   layout=v.layout, device=DEV, requires_grad=False)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Dev({self.v})"

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        with emulated():
            r = self.detach().clone().requires_grad_(self.requires_grad)
        if isinstance(self, torch.nn.Parameter):
            r = torch.nn.Parameter(r, self.requires_grad)
        memo[id(self)] = r
        return r

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return _dispatch(func, args, kwargs or {})


def _is(d):
    return d is not None and torch.device(d).type == DEV.type


def _dispatch(func, args, kwargs):
    flat, spec = tree_flatten((args, kwargs))
    devs = [t for t in flat if isinstance(t, Dev)]
    plain = [t for t in flat if isinstance(t, torch.Tensor) and not isinstance(t, Dev)]
    name = func._schema.name
    if devs and plain and name != "aten::copy_":
        if name.startswith(("aten::index", "aten::_index", "aten::_unsafe_index")):
            bad = any(t.dtype not in _INDEX and t.dim() > 0 for t in plain)
        else:
            bad = any(t.dim() > 0 for t in plain)
        if bad:
            raise RuntimeError(f"Expected all tensors to be on the same device, but found at least two devices, {DEV} and cpu! ({name})")
    target = kwargs.get("device")
    un = [t.v if isinstance(t, Dev) else t for t in flat]
    a, k = tree_unflatten(un, spec)
    if target is not None:
        k = dict(k, device=CPU)
    out = func(*a, **k)
    if name == "aten::copy_":
        return args[0]
    wrap = bool(devs) if target is None else _is(target)
    same = {id(t.v): t for t in devs}

    def back(t):
        if not isinstance(t, torch.Tensor) or isinstance(t, Dev):
            return t
        if id(t) in same and (target is None or wrap):
            return same[id(t)]
        return Dev(t) if wrap else t

    return tree_map(back, out)


class _Dispatch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return _dispatch(func, args, kwargs or {})


def _index(i):
    """lists and arrays of indices as tensors (torch would build them on the device without the dispatcher)"""
    if isinstance(i, (list, range)) or type(i).__module__ == "numpy":
        if not (isinstance(i, list) and any(isinstance(j, (slice, type(None), type(Ellipsis), torch.Tensor)) for j in i)):
            return torch.as_tensor(list(i) if isinstance(i, range) else i)
    return i


class _Function(TorchFunctionMode):
    """the few functions that build tensors without the dispatcher"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kw = dict(kwargs or {})
        if func in (torch.tensor, torch.as_tensor, torch.asarray) and _is(kw.get("device")):
            del kw["device"]
            data = args[0] if args else kw["data"]
            if isinstance(data, Dev):
                kw["device"] = DEV
                return func(*args, **kw)
            return func(*args, **kw).to(DEV)
        if func is torch.Tensor.new_tensor and isinstance(args[0], Dev):
            dev = kw.pop("device", DEV)
            data = args[1] if len(args) > 1 else kw.pop("data")
            kw.setdefault("dtype", args[0].dtype)
            if isinstance(data, torch.Tensor):
                return data.detach().clone().to(dev, kw["dtype"])
            grad = kw.pop("requires_grad", False)
            return torch.tensor(data, **kw).to(dev).requires_grad_(grad)
        if func in (torch.Tensor.__getitem__, torch.Tensor.__setitem__) and isinstance(args[0], Dev):  # lists of indices
            at = args[1]
            ix = tuple(map(_index, at)) if isinstance(at, tuple) else _index(at)
            return func(args[0], ix, *args[2:], **kw)
        if func is torch.Tensor.tolist and isinstance(args[0], Dev):
            return args[0].v.tolist()
        return func(*args, **kw)


@contextlib.contextmanager
def emulated():
    with _Dispatch(), _Function():
        yield


def up(x):
    """the same on the emulated device"""
    return tree_map(lambda t: Dev(t.detach().clone(memory_format=torch.preserve_format)) if isinstance(t, torch.Tensor) else t, x)


def values(t):
    return t.v if isinstance(t, Dev) else t

"""Tensors that say they live on an accelerator, computed on the CPU.

The library chooses other code paths by the device of its tensors.  Inside
`with on("cuda"):` a tensor made by `there(x)` reports that device, everything
computed from it does too, and tensors created "on" the device are made on the
CPU and report it.  As on the real thing, tensors of different devices do not
mix, there is no direct way to numpy, and MPS has no double precision.
"""

from __future__ import annotations

import contextlib
from unittest import mock

import torch
from torch.overrides import TorchFunctionMode

_DEV = ["cpu"]
_TALLY = [0]
_T = torch.Tensor
# these accept a tensor of another device
_FREE = {"__getitem__", "__setitem__", "copy_", "to", "type_as", "as_subclass", "__get__", "__set__", "is_tensor", "as_tensor",
         "tensor", "__repr__", "is_floating_point", "is_complex", "numel", "dim", "size", "stride", "__len__", "cpu", "detach",
         "expand_as", "view_as", "reshape_as", "zeros_like", "ones_like", "empty_like", "full_like", "data_ptr", "can_cast",
         "result_type", "promote_types", "__format__", "__deepcopy__", "is_same_size", "item", "tolist"}


class Mixed(RuntimeError):
    pass


def _kind():
    return _DEV[0].split(":")[0]


def _real(x):
    """Arguments as the CPU understands them."""
    if isinstance(x, torch.device) and x.type == _kind():
        return torch.device("cpu")
    if isinstance(x, str) and x.split(":")[0] == _kind():
        return "cpu"
    return x


def _is_cpu(a):
    return a == "cpu" if isinstance(a, str) else isinstance(a, torch.device) and a.type == "cpu" and _kind() != "cpu"


def _flat(x):
    if isinstance(x, _T):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)


def _mark(x):
    if isinstance(x, _T):
        if not isinstance(x, There):
            x = x.as_subclass(There)
        x.__dict__["_dev"] = _kind()
        if _kind() == "mps" and x.dtype in (torch.float64, torch.complex128):
            raise TypeError("Cannot convert a MPS Tensor to float64 dtype as the MPS framework doesn't support float64.")
    elif isinstance(x, (list, tuple)):
        for y in x:
            _mark(y)
    return x


def _check(func, args, kwargs):
    name = getattr(func, "__name__", "")
    ts = [t for a in [*args, *kwargs.values()] for t in _flat(a)]
    here = [t for t in ts if isinstance(t, There)]
    for t in here:
        if t.__dict__.get("_dev", _kind()) != _kind() and name not in _FREE:
            raise Mixed(f"Expected all tensors to be on the same device ({name})")
    if here and name not in _FREE and any(not isinstance(t, There) and t.ndim > 0 for t in ts):
        raise Mixed(f"Expected all tensors to be on the same device ({name})")


class There(_T):
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = {k: _real(v) for k, v in (kwargs or {}).items()}
        _TALLY[0] += 1
        if func == _T.device.__get__:
            return torch.device(args[0].__dict__.get("_dev", _kind())) if ":" not in _DEV[0] else torch.device(_DEV[0])
        if func == _T.is_cuda.__get__:
            return _kind() == "cuda"
        if func == _T.is_cpu.__get__:
            return False
        if func == _T.is_mps.__get__:
            return _kind() == "mps"
        if func in (_T.numpy, _T.__array__):
            raise TypeError(f"can't convert {_DEV[0]} device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first.")
        if func is _T.cpu:
            return args[0].as_subclass(_T)
        if func is _T.to and any(_is_cpu(a) for a in [*args[1:], *kwargs.values()]):
            return super().__torch_function__(func, types, args, kwargs).as_subclass(_T)
        if func is _T.as_subclass:
            return super().__torch_function__(func, types, args, kwargs)
        _check(func, args, kwargs)
        out = super().__torch_function__(func, types, tuple(_real(a) for a in args), kwargs)
        return _mark(out) if not isinstance(out, _T) or isinstance(out, There) else out




class _Mode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        given = [a for a in [*args, *kwargs.values()] if isinstance(a, (str, torch.device))]
        if func is torch.device or not any(_real(a) is not a for a in given):
            cpu = any(_is_cpu(a) for a in given) and func in (torch.as_tensor, torch.tensor, torch.zeros_like, torch.ones_like,
                                                              torch.empty_like, torch.full_like)
            out = func(*args, **kwargs)
            return out.as_subclass(_T) if cpu and isinstance(out, There) else out
        out = func(*[_real(a) for a in args], **{k: _real(v) for k, v in kwargs.items()})
        return _mark(out)


def not_ours(e):
    """Errors of the stand-in itself (a way to the real device it does not know)."""
    text = f"{type(e).__name__} {e}"
    return any(w in text for w in ("NVIDIA", "CUDA error", "not compiled with CUDA", "not linked with support for mps", "mps backend",
                                   "driver", "AcceleratorError"))


def there(x):
    return _mark(x.detach().clone())


def back(x):
    return x.as_subclass(_T).detach().clone()


@contextlib.contextmanager
def on(device, compiled=None):
    """Run as on `device`; torch.compile hands the function back (and reports it to `compiled`)."""
    Gen = torch.Generator

    def gen(device="cpu"):
        return Gen(device=_real(device))

    def comp(fn=None, **kw):
        if compiled is not None:
            compiled.append(fn)
        return fn
    old = _DEV[0]
    _DEV[0] = device
    try:
        with mock.patch.object(torch, "Generator", gen), mock.patch.object(torch, "compile", comp), \
                mock.patch("torch.cuda.is_available", lambda: device.startswith("cuda")), \
                mock.patch("torch.backends.mps.is_available", lambda: device == "mps"), _Mode():
            yield
    finally:
        _DEV[0] = old

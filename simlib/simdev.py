"""Simulated accelerators: devices ``simdev:0``, ``simdev:1``, ... behind PyTorch's own backend seam (PrivateUse1).

A tensor on a simulated device carries its label and the values (a CPU tensor below autograd). Kernels are those of the
CPU, but operands must be on one device, as on real accelerators (scalars, i.e. CPU tensors without axes, and CPU index
tensors excepted). Every kernel launch is counted and can fail (device out of memory).

Autograd runs all devices in the calling thread (``single_threaded``), so that a run is one deterministic sequence.
"""
import contextlib
import ctypes
import io
import pickle

import torch
from torch.overrides import TorchFunctionMode
from torch.utils import _pytree as pytree
from torch.utils import backend_registration

from . import env  # noqa: F401
from .faults import make

N_DEVICES = 3
_device_count = N_DEVICES


class _Backend(backend_registration._DummyBackendModule):
    def device_count(self):
        return N_DEVICES

    def get_rng_state(self, *a):
        return torch.get_rng_state()

    def set_rng_state(self, *a):
        pass

    def synchronize(self, *a):
        pass


_clear_error = ctypes.pythonapi.PyErr_Clear
_clear_error.restype, _clear_error.argtypes = None, ()
_TYPE = torch._C._autograd.DeviceType.PrivateUse1


class _Guard(backend_registration._DummyDeviceGuard):
    def type_(self):
        # Autograd leaves its stream guards while an exception from a kernel is pending, in which case Python code cannot
        # return. ``keep_errors`` has the exception.
        _clear_error()
        return _TYPE


class Kernels:
    """Counts kernel launches; raises at launch ``at``."""

    def __init__(self):
        self.n, self.at, self.exc, self.fired = 0, None, "oom", False

    def arm(self, at, exc="oom"):
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def disarm(self):
        self.at = None
        return self.fired


KERNELS = Kernels()


class DevTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, inner, dev):
        t = torch.Tensor._make_wrapper_subclass(cls, inner.shape, strides=inner.stride(), storage_offset=inner.storage_offset(),
                                                dtype=inner.dtype, device=dev, requires_grad=False)
        t.inner = inner
        return t

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return launch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        if id(self) not in memo:
            t = self.detach().clone()
            memo[id(self)] = t.requires_grad_(self.requires_grad) if self.requires_grad else t
        return memo[id(self)]

    def __repr__(self):
        return f"DevTensor({self.inner}, {self.device})"


ANY_DEVICE = ("aten::copy_", "aten::_to_copy", "aten::_copy_from", "aten::_copy_from_and_resize")
INDEXING = ("aten::index", "aten::index_put", "aten::index_put_", "aten::_index_put_impl_", "aten::_unsafe_index")


_errors = []


def launch(func, args, kwargs):
    try:
        return _launch(func, args, kwargs)
    except BaseException as e:
        _errors.append(e)
        raise


@contextlib.contextmanager
def keep_errors():
    """Around ``backward``: turns the lost exception back into the one which the kernel raised."""
    _errors.clear()
    try:
        yield
    except SystemError:
        if _errors:
            raise _errors[-1].with_traceback(None) from None
        raise
    finally:
        _errors.clear()


def _launch(func, args, kwargs):
    name = func._schema.name
    flat = pytree.tree_leaves((args, kwargs))
    devs = {t.device for t in flat if isinstance(t, DevTensor)}
    to = kwargs.get("device")
    if name not in ANY_DEVICE:
        strict = flat
        if name in INDEXING:  # indices may be on the CPU
            strict = pytree.tree_leaves((args[:1], args[2:], kwargs))
        cpu = [t for t in strict if isinstance(t, torch.Tensor) and not isinstance(t, DevTensor) and t.ndim > 0]
        if len(devs) > 1 or (devs and cpu):
            raise RuntimeError("Expected all tensors to be on the same device, but found at least two devices, "
                               f"{', '.join(sorted(map(str, devs)) + ['cpu'] * bool(cpu))} ({name})")
    KERNELS.n += 1
    if KERNELS.at is not None and KERNELS.n > KERNELS.at and not KERNELS.fired:
        KERNELS.fired = True
        raise make(KERNELS.exc)
    if to is not None:
        to = torch.device(to)
        if to.type == "simdev" and to.index is None:
            to = torch.device("simdev", 0)
        kwargs = {**kwargs, "device": torch.device("cpu")}
        kwargs.pop("pin_memory", None)
    known = {}

    def unwrap(t):
        known[id(t.inner)] = t
        return t.inner

    a, k = pytree.tree_map_only(DevTensor, unwrap, (args, kwargs))
    out = func(*a, **k)
    if name in ("aten::copy_",):
        return args[0]
    dev = to if to is not None else next(iter(devs))

    def wrap(t):
        if id(t) in known:
            return known[id(t)]
        if dev.type == "cpu" or any(t is x for x in flat):
            return t
        return DevTensor(t, dev)

    out = pytree.tree_map_only(torch.Tensor, wrap, out)
    for t in known.values():
        if t.shape != t.inner.shape:
            raise NotImplementedError(f"{name} changes a tensor's shape in place")
    return out


def _fallback(op, *args, **kwargs):
    return launch(op, args, kwargs)


_lib = None
_libs = []


def install():
    global _lib
    if _lib is None:
        backend_registration._setup_privateuseone_for_python_backend("simdev", _Backend(), device_guard=_Guard())
        _lib = torch.library.Library("_", "IMPL")
        _lib.fallback(_fallback, "PrivateUse1")
        # factories whose default implementation resizes an empty tensor
        f = torch.library.Library("aten", "IMPL")
        for n in ("eye", "eye.m", "arange", "arange.start", "arange.start_step", "linspace", "randperm", "randperm.generator"):
            over = getattr(getattr(torch.ops.aten, n.split(".")[0]), (n.split(".") + ["default"])[1])
            f.impl(n, lambda *a, _op=over, **k: launch(_op, a, k), "PrivateUse1")
        _libs.append(f)


class FromData(TorchFunctionMode):
    """Tensors made of Python data: PyTorch copies them to the device below all dispatchers."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.tensor, torch.as_tensor, torch.asarray) and not isinstance(args[0] if args else None, DevTensor):
            dev = kwargs.get("device")
            if dev is not None and torch.device(dev).type == "simdev":
                grad = kwargs.pop("requires_grad", False)
                return func(*args, **{**kwargs, "device": "cpu"}).to(dev).requires_grad_(grad)
        if func is torch.Tensor.new_tensor and isinstance(args[0], DevTensor):
            dev = kwargs.pop("device", None) or args[0].device
            kwargs.setdefault("dtype", args[0].dtype)
            return torch.tensor(*args[1:], **kwargs, device="cpu").to(dev)
        if func is torch.Tensor.tolist and isinstance(args[0], DevTensor):
            return args[0].detach().cpu().tolist()
        return func(*args, **kwargs)


@contextlib.contextmanager
def single_threaded():
    with torch.autograd.set_multithreading_enabled(False), FromData():
        yield


def host(x):
    return x.cpu() if isinstance(x, torch.Tensor) else x


# ------------------------------------------------------------------ checkpoints (stands in for torch.save's storage format)
def _rebuild(dev, inner, grad):
    return _rebuild.map(torch.device(dev), inner)


_rebuild.map = None


class _Pickler(pickle.Pickler):
    def reducer_override(self, obj):
        if isinstance(obj, DevTensor):
            return _rebuild, (str(obj.device), obj.detach().cpu().clone(), obj.requires_grad)
        return NotImplemented


def save(d):
    b = io.BytesIO()
    _Pickler(b).dump(d)
    return b.getvalue()


def load(b, map_location=None):
    """``map_location``: None (where it was) or a device all tensors are loaded to."""
    def put(dev, inner):
        return inner.to(dev if map_location is None else torch.device(map_location))

    _rebuild.map = put
    d = pickle.loads(b)
    if map_location is not None and torch.device(map_location).type == "cpu":
        return d
    return d

"""Faults inside tensor operations: the n-th operation of a region raises."""
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .core import Crash, Injected


class OpCounter(TorchDispatchMode):
    """Counts operations; raises ``exc`` at operation ``at`` (None: never)."""

    def __init__(self, at=None, exc="oom", on_op=None):
        super().__init__()
        self.n, self.at, self.exc, self.fired = 0, at, exc, False
        self.on_op = on_op
        self.fired_op = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if self.on_op is not None:
            self.on_op()
        if self.at is not None and self.n == self.at:
            self.n += 1
            self.fired = True
            self.fired_op = str(func)
            raise make(self.exc)
        self.n += 1
        return func(*args, **(kwargs or {}))


class LineFault:
    """Counts executed lines of ``singd`` in this thread; raises ``exc`` at line ``at`` (asynchronous interrupt)."""

    def __init__(self, at=None, exc="interrupt"):
        from .env import SINGD_DIR
        self.n, self.at, self.exc, self.fired, self.dir = 0, at, exc, False, SINGD_DIR
        self.fired_op = None

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(self.dir) else None

    def _line(self, frame, event, arg):
        if event == "line" and not self.fired:
            if self.n == self.at:
                self.fired = True
                self.fired_op = f"{frame.f_code.co_name}"
                raise make(self.exc)
            self.n += 1
        return self._line

    def __enter__(self):
        import sys
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        import sys
        sys.settrace(None)


class InjectedOOM(Injected, RuntimeError):
    pass


def make(kind):
    if kind == "oom":
        return InjectedOOM("CUDA out of memory (injected)")
    if kind == "interrupt":
        return KeyboardInterrupt("injected")
    if kind == "error":
        return Injected("injected error")
    if kind == "crash":
        return Crash("process died")
    raise KeyError(kind)


FAULT_EXC = (Injected, KeyboardInterrupt, Crash)


def is_injected(e):
    """An injected fault, possibly re-raised by PyTorch's C++ layers as another type."""
    return isinstance(e, FAULT_EXC) or "injected" in str(e)


class silent_mode:
    """Observation code runs outside of any fault region."""

    def __enter__(self):
        self.c = torch.utils._python_dispatch._disable_current_modes()
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)

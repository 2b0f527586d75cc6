"""Process set-up: must be imported before torch/singd are used anywhere.

* byte code is neither read from nor written to /repo (a stale .pyc can never be run),
* one computing thread, so that the order of float sums does not depend on the machine,
* ``torch.distributed`` is replaced by the simulator's dispatching stand-in *before* ``singd`` is
  imported, so that both ``dist.f(...)`` and ``from torch.distributed import f`` reach the simulator.
"""
import os
import sys
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
sys.path.insert(0, REPO)

import torch  # noqa: E402
import torch.distributed  # noqa: E402
import torch.utils.checkpoint  # noqa: E402

torch.set_num_threads(1)
try:
    torch.set_num_interop_threads(1)
except RuntimeError:
    pass
torch.use_deterministic_algorithms(False)
torch.backends.mkldnn.set_flags(False)  # its code generator loops forever for some depth-wise convolutions

from . import simdist  # noqa: E402

simdist.install()
sys.pycache_prefix = os.path.join("/nonexistent-pycache-prefix", "x")  # from here on: compile singd from source

import singd  # noqa: E402
from singd.optim.optimizer import SINGD  # noqa: E402

assert os.path.realpath(singd.__file__).startswith(os.path.realpath(REPO) + "/"), singd.__file__
warnings.simplefilter("ignore")
SINGD_DIR = os.path.realpath(os.path.dirname(singd.__file__))

# ------------------------------------------------------------------ process-wide state of the library
import importlib  # noqa: E402
import pkgutil  # noqa: E402
import types  # noqa: E402

for _m in pkgutil.walk_packages(singd.__path__, "singd."):
    importlib.import_module(_m.name)

_MUTABLE = (dict, list, set)
_SKIP = ("__", "_abc")


def _members(o):
    return [(o, k, v) for k, v in sorted(vars(o).items()) if not k.startswith(_SKIP)
            and not isinstance(v, types.ModuleType)]


def _functions(o, module):
    for v in vars(o).values():
        v = getattr(v, "__func__", v)
        if isinstance(v, types.FunctionType) and v.__module__ == module:
            yield v


def _holders():
    """(namespace object, attribute name, value) at module, class and function level of singd."""
    out, containers = [], []
    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == "singd" or name.startswith("singd.")):
            continue
        spaces = [mod] + [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name]
        for s in spaces:
            out += _members(s)
            for f in _functions(s, name):
                out += _members(f)
                containers += [d for d in f.__defaults__ or () if isinstance(d, _MUTABLE)]
    return out, containers + [v for _, _, v in out if isinstance(v, _MUTABLE)]


def _refill(v, c):
    if isinstance(v, list):
        v[:] = c
    else:
        v.clear()
        v.update(c)


_pristine, _cont = _holders()
_cont = [(v, v.copy()) for v in _cont]


def reset_process():
    """What a new process would start with: the library's process-wide state as after import."""
    known = {(id(o), k) for o, k, _ in _pristine}
    for o, k, _ in _holders()[0]:
        if (id(o), k) not in known:
            delattr(o, k)
    for o, k, v in _pristine:
        if vars(o).get(k) is not v:
            setattr(o, k, v)
        if hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            v.cache_clear()
    for v, c in _cont:
        _refill(v, c)

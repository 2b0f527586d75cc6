"""Networks as JSON: the real torch model (with modules, so that hooks fire) and an independent functional
evaluation used by the reference (no modules, no hooks)."""
import torch
import torch.nn.functional as F
from torch import nn
from torch.utils._python_dispatch import _disable_current_modes
from torch.utils.checkpoint import checkpoint as ckpt

SMOOTH = ["tanh", "sigmoid", "softplus", "gelu", "silu"]
KINKED = ["relu", "leaky"]


def act_fn(f, x):
    if f == "tanh":
        return torch.tanh(x)
    if f == "sigmoid":
        return torch.sigmoid(x)
    if f == "softplus":
        return F.softplus(x)
    if f == "gelu":
        return F.gelu(x)
    if f == "silu":
        return F.silu(x)
    if f == "relu":
        return F.relu(x)
    if f == "leaky":
        return F.leaky_relu(x, 0.1)
    if f == "id":
        return x
    raise KeyError(f)


def act_module(f, inplace):
    if f == "relu":
        return nn.ReLU(inplace=inplace)
    if f == "leaky":
        return nn.LeakyReLU(0.1, inplace=inplace)
    if f == "silu":
        return nn.SiLU(inplace=inplace)
    return {"tanh": nn.Tanh, "sigmoid": nn.Sigmoid, "softplus": nn.Softplus, "gelu": nn.GELU, "id": nn.Identity}[f]()


def _walk(ops):
    for op in ops:
        yield op
        if "ops" in op:
            yield from _walk(op["ops"])


def layer_ops(spec):
    """Supported layers of a network spec: ordered {name: op}."""
    return {op["name"]: op for op in _walk(spec["ops"]) if op["op"] in ("linear", "conv")}


def _pad(p):
    return p if isinstance(p, str) else tuple(p)


def string_padding(op):
    if isinstance(op["p"], str):
        if op["p"] == "valid":
            return (0, 0)
        return tuple(d * (k - 1) // 2 for k, d in zip(op["k"], op["d"]))
    return tuple(op["p"])


def pad_input(x, op):
    """The padded input and the zero-padding that remains."""
    p1, p2 = string_padding(op)
    if op.get("pm", "zeros") == "zeros":
        return x, (p1, p2)
    return F.pad(x, (p2, p2, p1, p1), mode=op["pm"]), (0, 0)


class DerivedLinear(nn.Linear):
    """As many libraries derive their layers."""


class DerivedConv2d(nn.Conv2d):
    def forward(self, input):
        return super().forward(input)


class Model(nn.Module):
    """Executes a spec. Supported layers live in ``self.layers``."""

    def __init__(self, spec, dtype=torch.float32, gen=None):
        super().__init__()
        self.spec = spec
        self.layers = nn.ModuleDict()
        self.acts = nn.ModuleDict()
        self.place, self.home = None, None  # devices of the layers and of everything else
        self.single = False  # inside a pass without batch axis
        for op in _walk(spec["ops"]):
            if op["op"] == "linear":
                m = (DerivedLinear if op.get("derived") else nn.Linear)(op["din"], op["dout"], bias=op["bias"], dtype=dtype)
                self.layers[op["name"]] = m
            elif op["op"] == "conv":
                cls = DerivedConv2d if op.get("derived") else nn.Conv2d
                m = cls(op["cin"], op["cout"], tuple(op["k"]), stride=tuple(op["s"]), padding=_pad(op["p"]),
                              dilation=tuple(op["d"]), groups=op["g"], bias=op["bias"], dtype=dtype,
                              padding_mode=op.get("pm", "zeros"))
                self.layers[op["name"]] = m
            elif op["op"] == "ln":
                self.layers[op["name"]] = nn.LayerNorm(op["d"], dtype=dtype)
            elif op["op"] == "bn":
                self.layers[op["name"]] = (nn.BatchNorm1d if op["nd"] == 1 else nn.BatchNorm2d)(op["d"], dtype=dtype)
            elif op["op"] == "act":
                self.acts[op["name"]] = act_module(op["f"], op.get("inplace", False))
            elif op["op"] == "dropout":
                self.acts[op["name"]] = nn.Dropout(op["p"], inplace=op.get("inplace", False))
        if gen is not None:
            init_params(self, gen)

    def forward(self, x, flags=None):
        return self._run(self.spec["ops"], x, flags or {})

    def one(self, x, flags=None):
        """A batch of one datum, processed without batch axis for as long as possible."""
        self.single = True
        try:
            y = self._run(self.spec["ops"], x.squeeze(0), flags or {})
        finally:
            single, self.single = self.single, False
        return y.unsqueeze(0) if single else y

    def _run(self, ops, x, flags):
        for op in ops:
            t = op["op"]
            if t in ("linear", "conv", "ln", "bn", "again"):
                m = self.layers[op["name"]]
                x = x if self.place is None else x.to(self.place[op["name"]])
                if flags.get("fn:" + op["name"]):  # the layer's parameters without the layer
                    x = F.linear(x, m.weight, m.bias)
                else:
                    x = m(input=x) if op.get("kw") else m(x)
                x = x if self.place is None else x.to(self.home)
            elif t in ("act", "dropout"):
                x = self.acts[op["name"]](x)
            elif t == "res":
                y = x.clone() if op.get("clone") else x
                if op.get("inplace"):
                    x = self._run(op["ops"], x, flags)
                    x += y
                else:
                    x = y + self._run(op["ops"], x, flags)
            elif t == "branch":
                f = flags.get(op["name"], True)
                if f == "nograd":
                    with torch.no_grad():
                        y = self._run(op["ops"], x, flags)
                    x = x + y
                elif f == "detach":
                    x = x + self._run(op["ops"], x, flags).detach()
                elif f:
                    x = x + self._run(op["ops"], x, flags)
            elif t == "ckpt":
                if torch.is_grad_enabled():
                    x = ckpt(lambda z, ops=op["ops"]: self._run(ops, z, flags), x, use_reentrant=op["reentrant"],
                             preserve_rng_state=True)
                else:
                    x = self._run(op["ops"], x, flags)
            elif t == "gscale":
                x = gscale(x, op["kind"])
            elif self.single:
                self.single, x = False, shape_op(t, x.unsqueeze(0))
            else:
                x = shape_op(t, x)
        return x


def gscale(x, kind):
    """Identity whose backward pass multiplies by ("sum") or divides by ("mean") the number of samples."""
    s = x.shape[0] if kind == "sum" else 1.0 / x.shape[0]
    return x + (s - 1.0) * (x - x.detach()) if torch.is_grad_enabled() else x


def shape_op(t, x):
    if t == "flatten":
        return x.flatten(1)
    if t == "toseq":
        return x.flatten(2).transpose(1, 2)
    if t == "meanseq":
        return x.flatten(1, -2).mean(1)
    if t == "gap":
        return x.flatten(2).mean(2)
    raise KeyError(t)


def functional(spec, params, x, flags, calls):
    """Evaluate without modules; append (layer name, input, output) of every call of a supported layer."""

    def run(ops, x):
        for op in ops:
            t = op["op"]
            if t == "again":
                op = next(o for o in _walk(spec["ops"]) if o.get("name") == op["name"] and o["op"] != "again")
                t = op["op"]
            if t == "linear":
                w = params["layers." + op["name"] + ".weight"]
                b = params.get("layers." + op["name"] + ".bias")
                y = x @ w.T
                y = y if b is None else y + b
                if not flags.get("fn:" + op["name"]):
                    calls.append((op["name"], x, y))
                x = y
            elif t == "conv":
                w = params["layers." + op["name"] + ".weight"]
                b = params.get("layers." + op["name"] + ".bias")
                z, p = pad_input(x, op)
                y = F.conv2d(z, w, b, stride=tuple(op["s"]), padding=p, dilation=tuple(op["d"]), groups=op["g"])
                calls.append((op["name"], x, y))
                x = y
            elif t == "ln":
                w = params["layers." + op["name"] + ".weight"]
                b = params["layers." + op["name"] + ".bias"]
                x = F.layer_norm(x, (op["d"],), w, b)
            elif t == "act":
                x = act_fn(op["f"], x)
            elif t == "dropout":
                raise NotImplementedError
            elif t == "res":
                x = x + run(op["ops"], x)
            elif t == "branch":
                f = flags.get(op["name"], True)
                if f in ("nograd", "detach"):
                    x = x + run(op["ops"], x).detach()
                elif f:
                    x = x + run(op["ops"], x)
            elif t == "ckpt":
                x = run(op["ops"], x)
            elif t == "gscale":
                x = gscale(x, op["kind"])
            else:
                x = shape_op(t, x)
        return x

    return run(spec["ops"], x)


def init_params(model, gen):
    for p in model.parameters():
        fan = p[0].numel() if p.ndim > 1 else 4
        v = torch.randn(p.shape, generator=gen, dtype=torch.float64) / fan**0.5
        p.data.copy_(v)
    for m in model.modules():
        if isinstance(m, nn.LayerNorm):
            m.weight.data.add_(1.0)


def loss_fn(out, target, avg, kind, scale=1.0):
    """Per-term loss summed over the feature axis, then reduced as ``loss_average`` says."""
    if out.ndim == 4:  # image: features are channels
        out = out.flatten(2).transpose(1, 2)
    n_b = out.shape[0]
    n_t = out.shape[:-1].numel()
    if kind == "mse":
        terms = 0.5 * (out - target) ** 2
        total = terms.sum()
    else:  # cross entropy against a soft target
        total = -(torch.softmax(target, -1) * torch.log_softmax(out, -1)).sum()
    div = {None: 1, "batch": n_b, "batch+sequence": n_t}[avg]
    return scale * total / div


def out_shape(spec, n):
    """Shape of the flattened-to-[b, ..., o] output for a batch of n (features last)."""
    x = torch.zeros(in_shape(spec, n), dtype=torch.float64)
    m = Model(strip(spec), dtype=torch.float64)
    with torch.no_grad():
        y = m(x)
    if y.ndim == 4:
        y = y.flatten(2).transpose(1, 2)
    return tuple(y.shape)


def strip(spec):
    return spec


def in_shape(spec, n):
    i = spec["input"]
    if i["kind"] == "vec":
        return (n, i["d"])
    if i["kind"] == "seq":
        return (n, *i["s"], i["d"])
    return (n, i["c"], i["h"], i["w"])


_oshape_cache = {}


def sizes(spec):
    """The input's sizes that may vary from pass to pass (None if the network fixes them)."""
    i = spec["input"]
    if i["kind"] == "seq":
        return list(i["s"])
    if i["kind"] == "img" and not any(o["op"] == "flatten" for o in _walk(spec["ops"])):
        return [i["h"], i["w"]]
    return None


def resized(spec, size):
    i = spec["input"]
    return {**spec, "input": {**i, **({"s": size} if i["kind"] == "seq" else {"h": size[0], "w": size[1]})}}


def batchless(spec):
    """Can the network process a single datum without batch axis (as one datum, not as a batch)?"""
    return spec["input"]["kind"] != "seq" and not any(o["op"] in ("bn", "gscale", "dropout", "ckpt") for o in _walk(spec["ops"]))


def emptyable(spec):
    """Can the network process a batch of no data?"""
    return not any(o["op"] in ("bn", "gscale") for o in _walk(spec["ops"]))


def laid_out(x, layout):
    """Same shape, other strides (and, for ``expand``, other values)."""
    if layout == "strided":
        return torch.stack([x, x + 1.0], -1)[..., 0]
    if layout == "transposed":
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if layout == "expand":
        return x[:1].expand(x.shape)
    if layout == "channels_last":
        return x.contiguous(memory_format=torch.channels_last) if x.ndim == 4 else x
    return x


def batch(spec, seed, n, dtype=torch.float64, xscale=1.0, var=None):
    """Batch number ``seed``: inputs and targets, decided by the seed only."""
    with _disable_current_modes():  # not part of the simulated operations
        var = var or {}
        n = var.get("n", n)
        spec = resized(spec, var["size"]) if "size" in var else spec
        key = (repr(spec), n)
        shape = _oshape_cache.get(key)
        if shape is None:
            if len(_oshape_cache) > 200:
                _oshape_cache.clear()
            with torch.random.fork_rng(devices=[]):
                shape = _oshape_cache[key] = out_shape(spec, max(n, 2))
        g = torch.Generator().manual_seed(seed % (2**63 - 1))
        x = torch.randn(in_shape(spec, n), generator=g, dtype=torch.float64) * xscale
        y = torch.randn((n, *shape[1:]), generator=g, dtype=torch.float64)
        return laid_out(x.to(dtype), var.get("layout")), y.to(dtype)

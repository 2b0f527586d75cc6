"""The real system: torch model + SINGD (+ GradScaler, scheduler, auxiliary SGD), driven by events."""
import contextlib
import io
import warnings

import torch

from . import env  # noqa: F401
from . import nets
from .core import sut
from .env import SINGD

DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16, None: None}


class LrCov:
    """Picklable schedule for ``lr_cov``."""

    def __init__(self, kind, a, n):
        self.kind, self.a, self.n = kind, a, n

    def __call__(self, t):
        if self.kind == "ramp":
            return self.a * min(1.0, (t + 1) / self.n)
        return self.a * (0.25 + 0.75 * ((t % self.n) / self.n))

    def __eq__(self, o):
        return isinstance(o, LrCov) and (self.kind, self.a, self.n) == (o.kind, o.a, o.n)


def hp_value(k, v):
    if k == "lr_cov" and isinstance(v, dict):
        return LrCov(v["kind"], v["a"], v["n"])
    if k == "structures":
        return tuple(v)
    if k == "preconditioner_dtype":
        return tuple(DT[x] for x in v)
    return v


def hp_real(hp):
    return {k: hp_value(k, v) for k, v in hp.items()}


def build_model(cfg):
    g = torch.Generator().manual_seed(cfg["init"])
    return nets.Model(cfg["net"], dtype=DT[cfg["dtype"]], gen=g)


def build_opt(cfg, model, cls=SINGD, groups=None):
    """Construct the optimizer in one of the documented ways."""
    groups = cfg["groups"] if groups is None else groups
    hps = [hp_real(g["hp"]) for g in groups]
    how = cfg.get("params", "groups")
    kw = dict(hps[0])
    kw["init_grad_scale"] = cfg.get("init_grad_scale", 1.0)

    def ps(g):
        skip = set(g.get("skip", ()))
        return [p for l in g["layers"] for n, p in model.layers[l].named_parameters() if f"{l}.{n}" not in skip]

    if how == "none" and len(groups) == 1:
        params = None
    elif how == "list" and len(groups) == 1:
        params = ps(groups[0])
    elif how == "generator" and len(groups) == 1:
        params = (p for p in ps(groups[0]))
    else:
        params = []
        for g, hp in zip(groups, hps):
            d = {"params": ps(g)}
            d.update({k: v for k, v in hp.items() if v != hps[0][k]})
            params.append(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(root(cfg, model), params, warn_unsupported=False, **kw)


def root(cfg, model):
    """The module given to the optimizer: the model, a part that has all its parameters, or something around it."""
    at = cfg.get("root")
    if at is None:
        return model
    if at == "outer":
        return torch.nn.ModuleDict({"head": torch.nn.ReLU(), "net": model})
    return model.layers if at == "layers" else next(iter(model.layers.values()))


def aux_params(cfg, model):
    """Parameters trained by plain SGD next to SINGD."""
    skip = set(cfg.get("const", ()))  # layers nobody trains
    skip.update(l for g in cfg["groups"] for l in g["layers"])
    trained = {id(p) for l in skip for p in model.layers[l].parameters()}
    return [(n, p) for n, p in model.named_parameters() if id(p) not in trained]


def put(t, ovf):
    i = torch.unravel_index(torch.tensor(ovf["i"] % t.numel()), t.shape)
    t[i] = ovf["val"]


def overflow_hooks(model, ovf):
    """Gradient w.r.t. one layer's output becomes non-finite; ``early``: before SINGD's own hook sees it."""
    if not ovf or ovf["kind"] != "layer":
        return []

    def fwd(mod, inp, out):
        if out.requires_grad:
            def g(grad):
                grad = grad.clone()
                put(grad, ovf)
                return grad
            out.register_hook(g)

    return [model.layers[ovf["layer"]].register_forward_hook(fwd, prepend=ovf["early"])]


class Trainer:
    """One training process on the real code."""

    quiet = False  # do not touch the warning filters (simulated threads share them)

    def __init__(self, cfg, groups=None, model=None, scaler=None, sched=None):
        self.cfg = cfg
        self.dtype = DT[cfg["dtype"]]
        self.model = build_model(cfg) if model is None else model
        self.opt = build_opt(cfg, self.model, groups=groups)
        ax = [p for _, p in aux_params(cfg, self.model)]
        self.aux = torch.optim.SGD(ax, lr=cfg["aux_lr"]) if ax else None
        self.scaler = None
        if scaler:
            self.scaler = torch.amp.GradScaler(device="cpu", **scaler)
            self.scaler.scale(torch.ones(()))  # lazily initialises; must not be hit by a fault half way
        self.sched = make_sched(sched, self.opt) if sched else None
        self.avg = cfg["groups"][0]["hp"]["loss_average"]
        self.slots, self.ovf_param = {}, {}
        self.manual = None  # gradient scale handled by the user

    # -- passes
    def data(self, seed, n, var=None):
        return nets.batch(self.cfg["net"], seed, n, self.dtype, self.cfg["xscale"], var)

    @sut
    def forward(self, slot, seed, n, flags=None, mult=1.0, xy=None, ovf=None, evalmode=False, var=None):
        x, y = self.data(seed, n, var) if xy is None else xy
        hs = overflow_hooks(self.model, ovf)
        if evalmode:
            self.model.eval()
        out = self.model.one(x, flags) if (var or {}).get("single") else self.model(x, flags)
        if evalmode:
            self.model.train()
        for h in hs:
            h.remove()
        self.slots[slot] = nets.loss_fn(out, y, self.avg, self.cfg["loss"], self.cfg["scale"] * mult)
        if ovf and ovf["kind"] == "loss":
            self.slots[slot] = self.slots[slot] * ovf["val"]
        if ovf and ovf["kind"] == "param":
            self.ovf_param[slot] = ovf
        return self.slots[slot]

    @sut
    def evaluate(self, seed, n, mode, flags=None):
        """Passes that must not influence training."""
        x, y = self.data(seed, n)
        if mode == "nograd":
            with torch.no_grad():
                self.model(x, flags)
        elif mode == "infer":
            with torch.inference_mode():
                self.model(x, flags)
        elif mode == "evalmode":
            self.model.eval()
            with torch.no_grad():
                self.model(x, flags)
            self.model.train()
        elif mode == "fwdonly":
            self.model(x, flags)
        else:
            raise KeyError(mode)

    @sut
    def backward(self, slot, retain=False):
        loss = self.slots[slot] if retain else self.slots.pop(slot)
        if self.scaler is not None:
            loss = self.scaler.scale(loss)
        if self.manual is not None:
            loss = loss * self.manual
        loss.backward(retain_graph=retain)
        if slot in self.ovf_param:  # the weight gradient alone overflows
            o = self.ovf_param.pop(slot)
            w = self.model.layers[o["layer"]].weight
            if w.grad is not None:
                put(w.grad, o)

    def grads_overflow(self):
        """What the gradient scaler sees (decided by torch, in the precision of the run)."""
        return not all(bool(torch.isfinite(p.grad).all()) for g in self.opt.param_groups for p in g["params"]
                       if p.grad is not None)

    @sut
    def zero_grad(self, set_to_none=True, via="opt"):
        if via == "model":
            self.model.zero_grad(set_to_none=set_to_none)
            return
        self.opt.zero_grad(set_to_none=set_to_none)
        if self.aux is not None:
            self.aux.zero_grad(set_to_none=set_to_none)

    def clip(self, c):
        """Gradient clipping by the user (in PyTorch's documented order)."""
        if self.scaler is not None:
            self.scaler.unscale_(self.opt)
            self.opt.set_current_grad_scale(self.scaler.get_scale())
        c = c * (1.0 if self.manual is None else self.manual)
        gs = [p.grad for g in self.opt.param_groups for p in g["params"] if p.grad is not None]
        norm = float(torch.stack([g.norm() for g in gs]).norm())
        for g in gs:
            g.mul_(min(1.0, c / max(norm, 1e-30)))

    @sut
    def step(self, clip=None):
        with (contextlib.nullcontext([]) if self.quiet else warnings.catch_warnings(record=True)) as w:
            if not self.quiet:
                warnings.simplefilter("always")
            if clip is not None:
                self.clip(clip)
            if self.scaler is not None:
                self.scaler.step(self.opt)
                if self.aux is not None:
                    self.scaler.step(self.aux)
                self.scaler.update()
            else:
                if self.manual is not None:
                    self.opt.set_current_grad_scale(self.manual)
                self.opt.step()
                if self.aux is not None:
                    self.aux.step()
        if self.sched is not None:
            if self.quiet:
                self.sched.step()
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.sched.step()
        return [str(x.message) for x in w]

    # -- observation
    @sut
    def obs(self, precond=True):
        o = {"p." + k: v.detach().to(torch.float64).clone() for k, v in self.model.named_parameters()}
        names = {id(p): k for k, p in self.model.named_parameters()}
        for p, st in self.opt.state.items():
            if "momentum_buffer" in st:
                o["mom." + names[id(p)]] = st["momentum_buffer"].detach().to(torch.float64).clone()
        if precond:
            for attr, k in (("Ks", "K."), ("Cs", "C."), ("m_Ks", "mK."), ("m_Cs", "mC.")):
                for n, m in (getattr(self.opt, attr, None) or {}).items():
                    o[k + short(n, self.cfg)] = m.to_dense().detach().to(torch.float64).clone()
        return o

    # -- checkpoints
    @sut
    def checkpoint(self, with_grads=False):
        d = {"model": self.model.state_dict(), "opt": self.opt.state_dict()}
        if self.aux is not None:
            d["aux"] = self.aux.state_dict()
        if self.scaler is not None:
            d["scaler"] = self.scaler.state_dict()
        if self.sched is not None:
            d["sched"] = self.sched.state_dict()
        if with_grads:
            d["grads"] = {k: (None if p.grad is None else p.grad.detach().clone())
                          for k, p in self.model.named_parameters()}
        return d

    @sut
    def restore(self, d):
        self.model.load_state_dict(d["model"])
        self.opt.load_state_dict(d["opt"])
        if self.aux is not None:
            self.aux.load_state_dict(d["aux"])
        if self.scaler is not None:
            self.scaler.load_state_dict(d["scaler"])
        if self.sched is not None:
            self.sched.load_state_dict(d["sched"])
        for k, p in self.model.named_parameters():
            g = d.get("grads", {}).get(k)
            p.grad = None if g is None else g.clone()


def short(n, cfg):
    """'layers.l1' -> 'l1' (module name as seen from the model)."""
    if not n:  # the model is a single layer
        return next(iter(nets.layer_ops(cfg["net"])))
    return n.split("layers.", 1)[1] if "layers." in n else n


def make_sched(s, opt):
    k = s["kind"]
    if k == "exp":
        return torch.optim.lr_scheduler.ExponentialLR(opt, gamma=s["g"])
    if k == "step":
        return torch.optim.lr_scheduler.StepLR(opt, step_size=s["n"], gamma=s["g"])
    if k == "cos":
        return torch.optim.lr_scheduler.CosineAnnealingLR(opt, T_max=s["n"])
    if k == "warm":  # starts at zero
        return torch.optim.lr_scheduler.LambdaLR(opt, lambda t: min(t / s["n"], 1.0))
    raise KeyError(k)


@sut
def to_bytes(d):
    b = io.BytesIO()
    torch.save(d, b)
    return b.getvalue()


@sut
def from_bytes(b, weights_only=None):
    kw = {} if weights_only is None else {"weights_only": weights_only}
    return torch.load(io.BytesIO(b), **kw)


def make_ref(cfg, trainer, dtype=torch.float64, groups=None, noise=None):
    from .refopt import EPS, NoisyRef, RefOpt
    groups = cfg["groups"] if groups is None else groups
    params = dict(trainer.model.named_parameters())
    group_of = {}
    order = list(nets.layer_ops(cfg["net"]))
    for l in order:
        for i, g in enumerate(groups):
            if l in g["layers"]:
                group_of[l] = i
    cfgs = [hp_real(g["hp"]) for g in groups]
    aux = {n: cfg["aux_lr"] for n, _ in aux_params(cfg, trainer.model)}
    if noise is not None:
        low = [[EPS[d or cfg["dtype"]] for d in g["hp"]["preconditioner_dtype"]] for g in groups]
        return NoisyRef(cfg["net"], params, group_of, cfgs, dtype=dtype, aux=aux, low=low, seed=noise)
    return RefOpt(cfg["net"], params, group_of, cfgs, dtype=dtype, aux=aux)


class RefTrainer:
    """The reference behind the same interface."""

    def __init__(self, cfg, trainer, dtype=torch.float64, groups=None, noise=None):
        self.cfg = cfg
        self.ref = make_ref(cfg, trainer, dtype, groups, noise)
        self.avg = cfg["groups"][0]["hp"]["loss_average"]
        self.slots, self.overflow = {}, False
        self.in_dtype = DT[cfg["dtype"]]

    def data(self, seed, n, var=None):
        # the very same numbers the system sees (rounded to its precision)
        return nets.batch(self.cfg["net"], seed, n, self.in_dtype, self.cfg["xscale"], var)

    def forward(self, slot, seed, n, flags=None, mult=1.0, xy=None, ovf=None, evalmode=False, var=None):
        if ovf and ovf["kind"] != "loss":
            self.slots[slot] = None  # this step will be skipped
            return
        x, y = self.data(seed, n, var) if xy is None else xy
        fw = self.ref.forward(x, flags)
        loss = nets.loss_fn(fw["out"], y.to(self.ref.dtype), self.avg, self.cfg["loss"], self.cfg["scale"] * mult)
        if ovf:  # may be masked by dead ReLUs, hence whether gradients overflow is computed
            loss = loss * ovf["val"]
        self.slots[slot] = (fw, loss)

    def evaluate(self, *a, **k):
        pass

    def backward(self, slot, retain=False):
        p = self.slots[slot] if retain else self.slots.pop(slot)
        if p is not None:
            self.ref.backward(*p)

    def zero_grad(self, set_to_none=True, via="opt"):
        self.ref.zero_grad(set_to_none, via)

    def step(self, clip=None):
        if clip is not None and not self.overflow:
            self.ref.clip(clip)
        if self.overflow:  # set by the driver
            self.ref.skip()
        else:
            self.ref.step()

    def obs(self):
        return {k: v.to(torch.float64) for k, v in self.ref.obs().items()}

"""C04: attaching the optimizer does not change what the model computes."""
import copy
import gc
import os
import random
import warnings

import torch
from torch.func import functional_call

from .. import gen as G
from .. import hist, nets, trainer
from ..core import SutError, Violation, sut

PROP = "C04"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("two copies of one network (in-place activations and residuals, re-entrant and non-re-entrant checkpointing, dropout, "
        "batch normalisation, re-used layers, branches), one with and one without the optimizer; random interleavings of "
        "forward passes (several in flight, optionally under autocast or without batch axis), backward passes (retained "
        "graphs, gradient penalties through create_graph, input gradients, torch.func gradients), evaluation, steps, skipped "
        "steps and zero_grad; outputs, inputs, gradients, buffers, random state and process-wide settings are compared after "
        "every event; non-trivial: two backward passes and a step; distinct: network, qualitative configuration, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.utils.checkpoint", "torch.autocast",
                       "torch.func"], "stub": [], "oracle": ["the same network without the optimizer"]}
ASSUMPTIONS = ["parameters are copied to the network without optimizer after each step"]
PROBES = ["retain", "gradpen", "inputgrad", "func", "funcx", "vjac", "autocast", "unbatched", "varied", "several_in_flight", "dropout", "bn", "inplace",
          "ckpt", "skipped", "found_inf", "eval", "deepcopy"]


def decorate(r, net):
    """Insert layers the reference model does not know (not needed here)."""
    if net["input"]["kind"] == "seq":
        bn_ok = None
    else:
        bn_ok = 1 if net["input"]["kind"] == "vec" else 2
    out, i = [], 0
    for op in net["ops"]:
        if op["op"] == "linear" and r.random() < 0.1:  # in-place residual around a single layer
            i += 1
            if op["din"] == op["dout"]:
                out.append({"op": "res", "clone": True, "inplace": True, "ops": [op]})
                continue
        out.append(op)
        if op["op"] in ("flatten", "gap", "meanseq", "toseq"):
            bn_ok = None if op["op"] == "toseq" else 1
        d = op.get("dout") or op.get("cout")
        if op["op"] in ("linear", "conv") and bn_ok and r.random() < 0.15:
            i += 1
            out.append({"op": "bn", "name": f"bn{i}", "d": d, "nd": bn_ok})
        if op["op"] in ("linear", "conv", "act") and r.random() < 0.15:
            i += 1
            out.append({"op": "dropout", "name": f"do{i}", "p": 0.4, "inplace": op["op"] == "linear" and r.random() < 0.3})
    net["ops"] = out


def unbatchable(net):
    bad = {"flatten", "toseq", "meanseq", "gap", "bn"}
    return net["input"]["kind"] in ("vec", "img") and not any(o["op"] in bad for o in nets._walk(net["ops"]))


def gen(r, tier):
    cfg = G.gen_cfg(r, n_groups=r.choice([1, 1, 2]), smooth=False,
                    net_kw={"max_layers": 3, "inplace": r.random() < 0.6, "ckpt": r.choice([0.0, 0.3]), "reuse": 0.2,
                            "res": 0.2, "branch": 0.1})
    decorate(r, cfg["net"])
    cfg["n"] = r.choice([2, 3, 4])
    ev = hist.gen_passes(r, r.randint(2, 5), p_eval=0.2, p_multi=0.5, p_interleave=0.6, p_retain=0.2, p_fwdonly=0.15,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.1)
    out = []
    amp = cfg["dtype"] == "f32" and r.random() < 0.3
    unb = unbatchable(cfg["net"]) and r.random() < 0.5
    extra = r.choice([0.0, 0.15, 0.3])
    for e in ev:
        if e["e"] == "fwd":
            e["amp"] = amp and r.random() < 0.7
            e["unb"] = unb and r.random() < 0.5
            e["xgrad"] = r.random() < 0.3
            if r.random() < 0.2 and not e["unb"]:
                e["var"] = {"layout": r.choice(["strided", "transposed", "channels_last", "channels_last"])}
                if nets.sizes(cfg["net"]):
                    e["var"]["size"] = [a + r.choice([0, 1]) for a in nets.sizes(cfg["net"])]
                if r.random() < 0.5:
                    e["var"]["n"] = r.choice([2, 3, 5])
        if e["e"] == "bwd" and r.random() < extra:
            e["how"] = r.choice(["gradpen", "inputgrad"])
        if e["e"] == "step" and r.random() < 0.1:
            e["found_inf"] = True
        out.append(e)
        if r.random() < extra / 2:
            out.append({"e": r.choice(["func", "funcx", "vjac", "deepcopy"]), "seed": r.randrange(10**6)})
    scaler = {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": 2} if r.random() < 0.15 else None
    if scaler:
        for e in out:
            e.pop("how", None)
            e.pop("amp", None)
            if e["e"] == "fwd" and r.random() < 0.1:
                e["ovf"] = True
    return {"cfg": cfg, "events": out, "scaler": scaler, "rng": r.randrange(10**6)}


def settings():
    """Process-wide state."""
    return {
        "torch random state": torch.get_rng_state().numpy().tobytes(),
        "python random state": hash(random.getstate()),
        "warning filters": [str(f) for f in warnings.filters],
        "showwarning": warnings.showwarning,
        "default dtype": torch.get_default_dtype(), "grad mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(), "threads": torch.get_num_threads(),
        "deterministic": (torch.are_deterministic_algorithms_enabled(),
                          torch.is_deterministic_algorithms_warn_only_enabled()),
        "anomaly": torch.is_anomaly_enabled(), "autocast": torch.is_autocast_enabled("cpu"),
        "matmul precision": torch.get_float32_matmul_precision(), "denormal": torch.tensor([1e-40]).mul(1.0).item(),
        "cudnn": (torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic),
        "mkldnn": torch.backends.mkldnn.enabled, "gc": (gc.isenabled(), gc.get_threshold()),
        "environ": sorted(os.environ.items()), "cwd": os.getcwd(), "printoptions": str(torch._tensor_str.PRINT_OPTS),
        "global hooks": (len(torch.nn.modules.module._global_forward_hooks),
                         len(torch.nn.modules.module._global_backward_hooks),
                         len(torch.nn.modules.module._global_forward_pre_hooks)),
    }


def unchanged(before, what, skip=()):
    now = settings()
    for k in before:
        if k not in skip and before[k] != now[k]:
            raise Violation("process-wide", f"{what}: {k} changed")


class Side:
    """One copy of the network."""

    def __init__(self, cfg, model, opt):
        self.cfg, self.model, self.opt = cfg, model, opt
        self.dtype = trainer.DT[cfg["dtype"]]
        self.avg = cfg["groups"][0]["hp"]["loss_average"]
        self.slots = {}

    @sut
    def forward(self, e, factor=1.0):
        cfg = self.cfg
        x, y = nets.batch(cfg["net"], e["seed"], 1 if e.get("unb") else cfg["n"], self.dtype, cfg["xscale"],
                          e.get("var"))
        if e.get("unb"):
            x = x[0]
        x.requires_grad_(bool(e.get("xgrad")))
        x0 = x.detach().clone()
        self.model.train(not e.get("evalmode"))
        with torch.autocast("cpu", dtype=torch.bfloat16, enabled=bool(e.get("amp"))):
            out = self.model(x, e.get("flags"))
        self.model.train()
        o = out.unsqueeze(0) if e.get("unb") else out
        loss = nets.loss_fn(o.to(self.dtype), y, self.avg, cfg["loss"], cfg["scale"]) * factor
        if not bool((x.detach() == x0).all()):
            raise Violation("input", "the forward pass changed its input")
        self.slots[e["slot"]] = (loss, x)
        return {"out": out.detach(), "loss": loss.detach(), "type": (out.dtype, out.stride())}

    @sut
    def backward(self, e):
        loss, x = self.slots[e["slot"]] if e.get("retain") else self.slots.pop(e["slot"])
        how = e.get("how")
        ps = [p for p in self.model.parameters() if p.requires_grad]
        if how == "inputgrad" and x.requires_grad:
            g = torch.autograd.grad(loss, x, retain_graph=bool(e.get("retain")), allow_unused=True)[0]
            return {"gx": g}
        if how == "gradpen":
            gs = torch.autograd.grad(loss, ps, create_graph=True, allow_unused=True)
            pen = loss + 0.1 * sum((g ** 2).sum() for g in gs if g is not None)
            pen.backward()
            return {}
        loss.backward(retain_graph=bool(e.get("retain")))
        return {}

    @sut
    def func(self, e):
        cfg = self.cfg
        x, y = nets.batch(cfg["net"], e["seed"], cfg["n"], self.dtype, cfg["xscale"])
        ps = {k: p.detach() for k, p in self.model.named_parameters()}
        bs = {k: b.detach().clone() for k, b in self.model.named_buffers()}

        def f(q):
            out = functional_call(self.model, {**q, **bs}, (x,))
            return nets.loss_fn(out, y, self.avg, cfg["loss"], 1.0)
        return torch.func.grad(f)(ps)

    @sut
    def funcx(self, e):
        cfg = self.cfg
        x, y = nets.batch(cfg["net"], e["seed"], cfg["n"], self.dtype, cfg["xscale"])
        self.model.eval()
        try:
            return {"gx": torch.func.grad(lambda z: nets.loss_fn(self.model(z), y, self.avg, cfg["loss"], 1.0))(x)}
        finally:
            self.model.train()

    @sut
    def vjac(self, e):
        cfg = self.cfg
        x, _ = nets.batch(cfg["net"], e["seed"], cfg["n"], self.dtype, cfg["xscale"])
        self.model.eval()
        try:
            x.requires_grad_(True)
            out = self.model(x).flatten()[:2]
            eye = torch.eye(len(out), dtype=out.dtype)
            return {"j": torch.autograd.grad(out, x, eye, is_grads_batched=True, allow_unused=True)[0]}
        finally:
            self.model.train()


def state(side):
    d = {"grad." + k: p.grad for k, p in side.model.named_parameters()}
    d.update({"buffer." + k: b for k, b in side.model.named_buffers()})
    d.update({"xgrad." + s: v[1].grad for s, v in side.slots.items()})
    return d


def equal(a, b, what, kind):
    if a.keys() != b.keys():
        raise Violation(kind, f"{what}: {sorted(set(a) ^ set(b))}")
    for k in a:
        x, y = a[k], b[k]
        if not isinstance(x, torch.Tensor) or not isinstance(y, torch.Tensor):
            if x is not y and x != y:
                raise Violation(kind, f"{what}: {k}: {x} with and {y} without the optimizer")
            continue
        if x.dtype != y.dtype or x.shape != y.shape:
            raise Violation(kind, f"{what}: {k} has another type or shape")
        if bool(((x == y) | (torch.isnan(x) & torch.isnan(y))).all()):
            continue
        eps = {torch.float64: 1e-10, torch.float32: 1e-5}.get(x.dtype, 2e-2)
        scale = float(y.abs().max()) if y.numel() else 0.0
        if not float((x - y).abs().max()) <= eps * (scale + 1e-30):
            raise Violation(kind, f"{what}: {k} differs by {float((x - y).abs().max()):.3g} (scale {scale:.3g})")


def run(scn, res):
    cfg, st = scn["cfg"], res.stats
    plain = Side(cfg, trainer.build_model(cfg), None)
    model = trainer.build_model(cfg)
    ref = copy.deepcopy(model.state_dict())
    gc.disable()
    try:
        s = settings()
        opt = trainer.build_opt(cfg, model)
        unchanged(s, "constructor")
        equal(model.state_dict(), ref, "constructor", "parameters")
        real = Side(cfg, model, opt)
        body(scn, res, st, cfg, plain, real)
    finally:
        gc.enable()


def body(scn, res, st, cfg, plain, real):
    scaler = None
    if scn["scaler"]:
        scaler = torch.amp.GradScaler(device="cpu", **scn["scaler"])
        scaler.scale(torch.ones(()))
    guard = hist.Guard(bool(scaler))
    ops = list(nets._walk(cfg["net"]["ops"]))
    for k in ("dropout", "bn", "ckpt"):
        st[k] += any(o["op"] == k for o in ops)
    st["inplace"] += any(o.get("inplace") for o in ops)
    n_bwd = n_step = 0
    finite = True
    for i, e in enumerate(scn["events"]):
        k = e["e"]
        if k == "bwd" and e["slot"] in plain.slots and e.get("how") == "inputgrad":
            if not plain.slots[e["slot"]][1].requires_grad:
                e = {x: v for x, v in e.items() if x != "how"}
        if k == "bwd" and e.get("how") == "gradpen":
            e = {**e, "retain": False}
            if any(o["op"] == "ckpt" for o in ops):  # torch.autograd.grad is not supported by re-entrant checkpointing
                e.pop("how")
        if k == "bwd" and e.get("how") == "inputgrad" and any(o["op"] == "ckpt" for o in ops):
            e = {x: v for x, v in e.items() if x != "how"}
        if not guard.ok(e):
            continue
        what = f"event {i} ({k}{' ' + e['how'] if e.get('how') else ''})"
        seed = scn["rng"] * 1000 + i
        outs, rng = [], []
        if k in ("fwd", "bwd", "eval", "func", "funcx", "vjac"):
            if k == "fwd":
                st["autocast"] += bool(e.get("amp"))
                st["unbatched"] += bool(e.get("unb"))
                st["varied"] += bool(e.get("var"))
                st["several_in_flight"] += len(plain.slots) > 0
            if k == "bwd":
                n_bwd += 1
                st[e.get("how", "retain" if e.get("retain") else "bwd")] += 1
            if k in ("func", "funcx", "vjac", "eval"):
                st[k] += 1
            if k == "func" and any(o["op"] in ("bn", "ckpt", "dropout") for o in ops):
                continue
            if k in ("vjac", "funcx") and any(o["op"] == "ckpt" for o in ops):
                continue
            for side in (plain, real):
                torch.manual_seed(seed)
                s = settings()
                try:
                    outs.append(act(side, e, scaler))
                except SutError as err:
                    c = err.__cause__
                    if side is plain:
                        raise RuntimeError(f"the network without optimizer fails: {c!r}") from c
                    raise
                if side is real:
                    unchanged(s, what, skip=("torch random state",))
                rng.append(torch.get_rng_state())
            if outs:
                equal(outs[1], outs[0], what, "output" if k == "fwd" else "gradient")
                if not torch.equal(*rng):
                    raise Violation("process-wide", f"{what}: the random state differs")
                for v in outs[1].values():
                    if isinstance(v, torch.Tensor):
                        res.note(v.double().sum().item())
        elif k == "drop":
            for side in (plain, real):
                side.slots.pop(e["slot"], None)
        elif k == "zero":
            for side in (plain, real):
                if side is real and e["via"] == "opt":
                    s = settings()
                    side.opt.zero_grad(set_to_none=e["none"])
                    unchanged(s, what)
                    for p in model_rest(side):
                        zero(p, e["none"])
                else:
                    side.model.zero_grad(set_to_none=e["none"])
            # parameters outside of the optimizer
        elif k == "deepcopy":
            m = copy.deepcopy(real.model) if not real.slots else None
            if m is not None:
                st["deepcopy"] += 1
                x, _ = nets.batch(cfg["net"], e["seed"], cfg["n"], real.dtype, cfg["xscale"])
                m.eval()
                real.model.eval()
                with torch.no_grad():
                    equal({"out": m(x)}, {"out": real.model(x)}, what, "output")
                real.model.train()
                copies(real, m, e, cfg)
        elif k == "step":
            n_step += 1
            res.simtime += 1
            before = {n: (None if p.grad is None else p.grad.clone()) for n, p in real.model.named_parameters()}
            torch.manual_seed(seed)
            s = settings()
            s_scale = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = settings()
                if scaler is not None:
                    s_scale = scaler.get_scale()
                    one(lambda: scaler.step(real.opt))
                else:
                    if e.get("found_inf"):
                        real.opt.found_inf = torch.tensor(1.0)
                        st["found_inf"] += 1
                    one(real.opt.step)
                    if e.get("found_inf"):
                        del real.opt.found_inf
                unchanged(s, what)
            if scaler is not None:
                scaler.update()
                st["skipped"] += scaler.get_scale() < s_scale
            equal({n: p.grad for n, p in real.model.named_parameters()}, before, what, "gradient changed by step")
            with torch.no_grad():
                for p, q in zip(plain.model.parameters(), real.model.parameters()):
                    p.copy_(q)
                    finite = finite and bool(torch.isfinite(q).all())
            equal(dict(real.model.named_buffers()), dict(plain.model.named_buffers()), what, "buffer")
            if not finite:
                st["cut_off"] += 1
                break
        if k != "zero":
            equal(state(real), state(plain), what, "gradient")
    res.nontrivial = n_bwd >= 2 and n_step >= 1
    res.sig = hist.sig(hist.cfg_sig(cfg), [(e["e"], e.get("how"), e.get("amp"), e.get("unb")) for e in scn["events"]])


@sut
def copies(side, m, e, cfg):
    """A copy of the network can be trained without its original noticing."""
    stat = {k: v.to_dense().clone() for q in (side.opt.H_Ks, side.opt.H_Cs) for k, v in q.items()}
    n = len(side.opt.H_Ks), len(side.opt.H_Cs)
    x, y = nets.batch(cfg["net"], e["seed"], cfg["n"], side.dtype, cfg["xscale"])
    nets.loss_fn(m(x), y, side.avg, cfg["loss"], 1.0).backward()
    now = {k: v.to_dense() for q in (side.opt.H_Ks, side.opt.H_Cs) for k, v in q.items()}
    if n != (len(side.opt.H_Ks), len(side.opt.H_Cs)):
        raise Violation("copy", "a pass of a copy of the network changes the optimizer's statistics")
    equal(now, stat, "pass of a copy of the network", "copy")


@sut
def one(f):
    return f()


def model_rest(side):
    mine = {id(p) for g in side.opt.param_groups for p in g["params"]}
    return [p for p in side.model.parameters() if id(p) not in mine]


def zero(p, none):
    if none:
        p.grad = None
    elif p.grad is not None:
        p.grad.zero_()


def act(side, e, scaler):
    k = e["e"]
    if k == "fwd":
        f = 1.0 if scaler is None else scaler.get_scale()
        return side.forward(e, f * (float("inf") if e.get("ovf") else 1.0))
    if k == "bwd":
        return side.backward(e)
    if k == "func":
        return side.func(e)
    if k == "vjac":
        return side.vjac(e)
    if k == "funcx":
        return side.funcx(e)
    t = trainer.Trainer.__new__(trainer.Trainer)
    t.cfg, t.dtype, t.model = side.cfg, side.dtype, side.model
    t.evaluate(e["seed"], e["n"] + 1, e["mode"])
    return {}

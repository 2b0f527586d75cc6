"""C24: layers may live on any device."""
import random

import torch

from .. import events as E
from .. import gen as G
from .. import hist, nets, simdev, trainer
from ..core import SutError, Violation, sut
from ..faults import is_injected
from . import c21

PROP = "C24"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 60000}
TIME_UNIT = "optimizer steps"
TECHNIQUE = ("deterministic simulation: simulated accelerators with kernel failures behind PyTorch's backend seam, seeded "
             "placements, histories and restarts, refinement of an executable reference model")
RULE = ("networks whose layers are placed on simulated accelerators and the CPU (all on one device, or spread), training "
        "histories with accumulation, evaluation, gradient scaling, skipped steps, device-out-of-memory at a random kernel "
        "launch of a forward, backward or step, and restarts from checkpoints under another placement (tensors loaded to "
        "where they were, to the CPU or to one device); compared with the reference on the CPU after every step, all state "
        "must be on its layer's device after every event, and kernels refuse operands of different devices; or programs of "
        "structured-matrix operations on a device, compared with the CPU bit by bit; non-trivial: a layer on an "
        "accelerator and >= 2 steps, or >= 3 operations; distinct: network, configuration, placement, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd, optim, amp.GradScaler"],
              "stub": ["accelerators (CPU kernels behind the PrivateUse1 dispatch key)", "torch.save/torch.load of device tensors "
                       "(pickle with device tags and map_location)"],
              "oracle": ["refopt.RefOpt on the CPU", "the same operations on the CPU"]}
ASSUMPTIONS = ["parameters stay on their device while the optimizer exists (as for all PyTorch optimizers)",
               "after a failed step() the user restores the last checkpoint",
               "autograd runs the devices' work one after another"]
PROBES = ["one_device", "several_devices", "some_on_cpu", "oom_forward", "oom_backward", "oom_step", "restart", "replaced",
          "map_cpu", "map_device", "map_none", "scaler", "skipped", "ops_program", "eval"]

DEVS = ["cpu", "simdev:0", "simdev:1", "simdev:2"]


# ------------------------------------------------------------------ scenario
def gen_place(r, layers):
    if r.random() < 0.4:
        d = r.choice(DEVS[1:])
        return {"home": d, "layers": {l: d for l in layers}}
    pool = r.sample(DEVS, r.choice([2, 2, 3]))
    return {"home": r.choice(pool), "layers": {l: r.choice(pool) for l in layers}}


def gen(r, tier):
    if r.random() < 0.15:
        name = r.choice(list(c21.CLASSES))
        d = r.choice(c21.BIG[name]) if name in c21.BIG and r.random() < 0.6 else r.choice(c21.SMALL)
        return {"kind": "ops", "cls": name, "dim": d, "dtype": r.choice(["f32", "f32", "bf16", "f16"]), "dev": r.choice(DEVS[1:]),
                "seed": r.randrange(10**6), "events": [gen_op(r) for _ in range(r.randint(4, 20))]}
    cfg = G.gen_cfg(r, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3, "ln": 0.1})
    if cfg["dtype"] == "f32" and r.random() < 0.2:  # placement with explicit data types
        for g in cfg["groups"]:
            g["hp"]["preconditioner_dtype"] = r.choice([["f32", "f32"], [None, "f32"]])
    layers = [o["name"] for o in nets._walk(cfg["net"]["ops"]) if o["op"] in ("linear", "conv", "ln")]
    scaler = r.random() < 0.25
    ev, out = hist.gen_passes(r, r.randint(3, 7), p_eval=0.15, p_multi=0.3, p_retain=0.05, p_fwdonly=0.05,
                              zero_where=r.choice(["before", "after"]), p_nozero=0.0, via_model=0.3,
                              p_clip=r.choice([0.0, 0.0, 0.3])), []
    hist.vary(r, ev, cfg["net"], 0.15, single=False, cfg=cfg)  # (torch's kernels then change shapes in place)
    for e in ev:
        if e["e"] == "fwd" and r.random() < 0.12:
            out.append({"e": "oom", "where": r.choice(["fwd", "bwd", "bwd"]), "frac": float(f"{r.random():.3f}"),
                        "seed": r.randrange(10**6)})
            out.append({"e": "zero", "none": r.random() < 0.7, "via": "opt"})
        if e["e"] == "fwd" and scaler and r.random() < 0.1:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        if e["e"] == "step" and r.random() < 0.08:
            out.append({"e": "oomstep", "frac": float(f"{r.random():.3f}"), "place": gen_place(r, layers)})
        out.append(e)
        if e["e"] == "step" and r.random() < 0.15:
            out.append({"e": "move", "place": gen_place(r, layers) if r.random() < 0.7 else None,
                        "map": r.choice([None, "cpu", "cpu", "simdev:0"])})
    return {"kind": "train", "cfg": cfg, "events": out, "place": gen_place(r, layers),
            "scaler": {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": 2} if scaler else None}


def gen_op(r):
    return {"op": r.choice(["matmul", "add", "mul", "from_inner", "from_inner0", "from_mat_inner", "from_inner2", "from_dense", "matmat",
                            "rmatmat", "trace", "fro", "inf", "dense", "add_", "mul_", "diag_add_", "eye", "zeros", "new", "copy"]),
            "a": r.randrange(3), "b": r.randrange(3), "dst": r.randrange(3), "k": r.choice([0.5, -1.0, 2.0, 0.3]),
            "cols": r.choice([1, 2, 5]), "seed": r.randrange(10**6)}


# ------------------------------------------------------------------ the system on devices
class DevTrainer(trainer.Trainer):
    def __init__(self, cfg, place, groups=None, scaler=None):
        model = trainer.build_model(cfg)
        self.place = place
        model.place, model.home = dict(place["layers"]), place["home"]
        for l, m in model.layers.items():
            for n, p in list(m.named_parameters(recurse=False)):
                setattr(m, n, torch.nn.Parameter(p.detach().to(place["layers"][l])))
        self._fresh_device(model, cfg, groups, scaler)

    @sut
    def _fresh_device(self, model, cfg, groups, scaler):
        super().__init__(cfg, groups=groups, model=model, scaler=scaler)

    def data(self, seed, n, var=None):
        x, y = super().data(seed, n, var)
        return x.to(self.place["home"]), y.to(self.place["home"])

    @sut
    def backward(self, slot, retain=False):
        with simdev.keep_errors():
            trainer.Trainer.backward.__wrapped__(self, slot, retain)

    def obs(self, precond=True):
        return {k: v.cpu() for k, v in super().obs(precond).items()}

    def clip(self, c):
        """As ``clip_grad_norm_`` for gradients on several devices."""
        if self.scaler is not None:
            self.scaler.unscale_(self.opt)
            self.opt.set_current_grad_scale(self.scaler.get_scale())
        gs = [p.grad for g in self.opt.param_groups for p in g["params"] if p.grad is not None]
        norm = float(torch.stack([g.norm().cpu() for g in gs]).norm())
        for g in gs:
            g.mul_(min(1.0, c / max(norm, 1e-30)))

    def evaluate(self, seed, n, mode, flags=None):
        super().evaluate(seed, n, "nograd" if mode == "infer" else mode, flags)

    def check_placement(self, what):
        """Every tensor of the optimizer is where its layer is."""
        dev = {n: m.weight.device for n, m in self.model.layers.items() if getattr(m, "weight", None) is not None}
        for attr in ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs"):
            for n, m in (getattr(self.opt, attr, None) or {}).items():
                for k, t in m.named_tensors():
                    l = trainer.short(n, self.cfg)
                    if t.device != dev[l]:
                        raise Violation("wrong device", f"{what}: {attr}[{l}].{k} is on {t.device}, the layer on {dev[l]}")
        for p, s in self.opt.state.items():
            for k, t in s.items():
                if isinstance(t, torch.Tensor) and t.ndim and t.device != p.device:
                    raise Violation("wrong device", f"{what}: {k} is on {t.device}, the parameter on {p.device}")


def run(scn, res):
    simdev.install()
    simdev.KERNELS.disarm()
    with simdev.single_threaded():
        (run_ops if scn["kind"] == "ops" else run_train)(scn, res)


def run_train(scn, res):
    cfg, st = scn["cfg"], res.stats
    sim = hist.Sim(cfg, res, scaler=scn["scaler"], clipped=any(e.get("clip") for e in scn["events"]),
                   system=DevTrainer(cfg, scn["place"], scaler=scn["scaler"]))
    acc = [0]
    counts = {}

    def kernels():
        if not counts:
            t = DevTrainer(cfg, sim.sys.place, scaler=scn["scaler"])
            for k, f in (("fwd", lambda: t.forward("p", 0, cfg["n"])), ("bwd", lambda: t.backward("p")), ("step", t.step)):
                simdev.KERNELS.arm(None)
                f()
                counts[k] = simdev.KERNELS.n
        return counts

    def failing(ev, n, fn):
        simdev.KERNELS.arm(min(int(ev["frac"] * n), max(n - 1, 0)))
        try:
            fn()
        except BaseException as e:
            while isinstance(e, SutError):
                e = e.__cause__
            if not is_injected(e):
                raise
            return True
        finally:
            simdev.KERNELS.disarm()
        return False

    def oom(ev):
        n = kernels()[ev["where"]]
        t = sim.sys
        if ev["where"] == "bwd":
            t.forward("abandoned", ev["seed"], cfg["n"])
        hit = failing(ev, n, lambda: t.forward("abandoned", ev["seed"], cfg["n"]) if ev["where"] == "fwd" else t.backward("abandoned"))
        st[("oom_forward" if ev["where"] == "fwd" else "oom_backward") if hit else "oom_not_reached"] += 1
        t.slots.pop("abandoned", None)
        sim.guard.ok({"e": "abandon"})

    def rebuild(place, data, loc):
        d = simdev.load(data, loc)
        t = DevTrainer(cfg, place, scaler=scn["scaler"])
        t.restore(d)
        for p in t.model.parameters():  # gradients come with the checkpoint
            if p.grad is not None and p.grad.device != p.device:
                raise AssertionError("harness")
        sim.sys = t
        counts.clear()

    def save(t):
        d = t.checkpoint()
        # the user's part: gradients are kept next to the model on the CPU
        return sut(simdev.save)(d), {k: None if p.grad is None else p.grad.detach().cpu() for k, p in t.model.named_parameters()}

    def put_grads(t, grads):
        for k, p in t.model.named_parameters():
            p.grad = None if grads[k] is None else grads[k].to(p.device)

    def move(ev):
        data, grads = save(sim.sys)
        place = ev["place"] or sim.sys.place
        st["replaced"] += place != sim.sys.place
        sim.sys.slots.clear()
        sim.guard.slots.clear()
        rebuild(place, data, ev["map"])
        put_grads(sim.sys, grads)
        st["restart"] += 1
        st[f"map_{'none' if ev['map'] is None else 'cpu' if ev['map'] == 'cpu' else 'device'}"] += 1

    def oomstep(ev):
        """step() dies; the user goes back to the checkpoint taken just before (gradients included)."""
        if not sim.guard.have_grad or sim.guard.spent or sim.guard.dirty:
            return
        if scn["scaler"]:  # an un-scaled gradient cannot be un-scaled again
            return
        n = kernels()["step"]
        data, grads = save(sim.sys)
        if failing(ev, n, sim.sys.step):
            st["oom_step"] += 1
        else:
            st["oom_not_reached"] += 1
        sim.sys.slots.clear()
        sim.guard.slots.clear()
        rebuild(ev["place"], data, None)
        put_grads(sim.sys, grads)

    sim.ext.update(oom=oom, move=move, oomstep=oomstep)

    def after(i, ev):
        sim.sys.check_placement(f"after {ev['e']} (event {i})")
        if ev["e"] == "step":
            acc[0] += 1
            st["skipped"] += bool(sim.refs[0].overflow)
        st["eval"] += ev["e"] == "eval"

    sim.sys.check_placement("after construction")
    sim.run(scn["events"], after)
    ds = set(scn["place"]["layers"].values())
    st["one_device" if len(ds) == 1 else "several_devices"] += 1
    st["some_on_cpu"] += "cpu" in ds
    st["scaler"] += scn["scaler"] is not None
    st["kernel_launches"] += simdev.KERNELS.n
    res.nontrivial = ds != {"cpu"} and acc[0] >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), sorted(scn["place"]["layers"].values()), hist.ev_sig(scn["events"]))


# ------------------------------------------------------------------ structured matrices on a device
def run_ops(scn, res):
    cls, dev = c21.CLASSES[scn["cls"]], torch.device(scn["dev"])
    dt, dim = c21.DT[scn["dtype"]], scn["dim"]

    def both(x):
        return x, x.to(dev)

    def mats(seed):
        return [cls.from_dense(x.clone()) for x in both(c21.values((dim, dim), seed, scn["dtype"], sym=True))]

    slots = [sut(mats)(scn["seed"] + i) for i in range(3)]

    def agree(what, c, d):
        cs = [("", c)] if isinstance(c, torch.Tensor) else list(c.named_tensors())
        ds = [("", d)] if isinstance(d, torch.Tensor) else list(d.named_tensors())
        for (k, x), (_, y) in zip(cs, ds):
            if y.device != dev:
                raise Violation("wrong device", f"{what}: result {k} is on {y.device}, operands are on {dev}")
            if x.dtype != y.dtype or x.shape != y.shape or not torch.equal(torch.nan_to_num(x), torch.nan_to_num(y.detach().cpu())):
                raise Violation("device mismatch", f"{what}: {k} differs between {dev} and the CPU")

    n = 0
    for i, ev in enumerate(scn["events"]):
        op, (a, b) = ev["op"], (slots[ev["a"]], slots[ev["b"]])
        X = both(c21.values((dim, ev["cols"]), ev["seed"], scn["dtype"]))
        S = both(c21.values((dim, dim), ev["seed"], scn["dtype"], sym=True))
        place = ({}, {"device": dev})
        fn = {
            "matmul": lambda j: a[j] @ b[j], "add": lambda j: a[j] + b[j], "mul": lambda j: a[j] * ev["k"],
            "from_inner": lambda j: a[j].from_inner(X[j]), "from_inner0": lambda j: a[j].from_inner(),
            "from_mat_inner": lambda j: cls.from_mat_inner(X[j]), "from_inner2": lambda j: a[j].from_inner2(S[j]),
            "from_dense": lambda j: cls.from_dense(S[j].clone()), "matmat": lambda j: a[j] @ X[j],
            "rmatmat": lambda j: a[j].rmatmat(X[j]), "trace": lambda j: a[j].average_trace(), "fro": lambda j: a[j].frobenius_norm(),
            "inf": lambda j: a[j].infinity_vector_norm(), "dense": lambda j: a[j].to_dense(),
            "add_": lambda j: a[j].add_(b[j], alpha=ev["k"]), "mul_": lambda j: a[j].mul_(ev["k"]),
            "diag_add_": lambda j: a[j].diag_add_(ev["k"]),
            "eye": lambda j: cls.eye(dim, dtype=dt, **place[j]), "zeros": lambda j: cls.zeros(dim, dtype=dt, **place[j]),
            "new": lambda j: a[j].zeros(dim, dtype=dt, **place[j]).add_(b[j]), "copy": lambda j: __import__("copy").deepcopy(a[j]),
        }[op]
        c, d = sut(fn)(0), sut(fn)(1)
        res.stats["op_" + op] += 1
        agree(f"{scn['cls']}({dim}, {scn['dtype']}) {op} (event {i})", c, d)
        n += 1
        for s in slots:
            agree(f"{scn['cls']}({dim}, {scn['dtype']}) operand of {op} (event {i})", *s)
        if op in ("matmul", "add", "mul", "from_inner", "from_inner0", "from_mat_inner", "from_inner2", "from_dense", "eye", "zeros",
                  "new", "copy"):
            sane = all(bool(torch.isfinite(t).all()) and float(t.abs().max()) < 100 for _, t in c.named_tensors() if t.numel())
            if sane:
                slots[ev["dst"]] = [c, d]
    res.stats["ops_program"] += 1
    res.simtime += n
    res.nontrivial = n >= 3
    res.sig = hist.sig(scn["cls"], dim, scn["dtype"], [e["op"] for e in scn["events"]])

"""C18: configured structure and precision persist through any history."""
import torch

from .. import compare, distsim, env, hist, nets, trainer
from .. import events as E
from .. import gen as G
from ..core import SutError, Violation, sut
from ..job import Job

PROP = "C18"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 40000}
TIME_UNIT = "optimizer steps"
RULE = ("every pair of structures and of pre-conditioner data types (default, float32, bfloat16, float16), models in float64, "
        "float32, bfloat16 and float16, with and without autocast; accumulation, skipped steps, abandoned passes, restarts, "
        "re-loading, hyper-parameter changes (alpha1 switched on), one process or two simulated ranks; class, data type and "
        "shapes of all pre-conditioners, momenta, parameters and parameter momenta are checked after every event, and no step "
        "may fail; non-trivial: at least two taken steps with a low or mixed precision or a structured matrix; distinct: "
        "network, qualitative configuration, data types, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.autocast", "torch.amp.GradScaler", "torch.save/torch.load"],
              "stub": ["torch.distributed (simulated collectives)"],
              "oracle": ["class, dtype and shape each matrix had to be built with (from the configuration)"]}
ASSUMPTIONS = ["float64 pre-conditioners only for dense and diagonal matrices (singd refuses the others)",
               "statistics stay within the range of the data type (diverging runs are cut off)"]
PROBES = ["model_f64", "model_f32", "model_bf16", "model_f16", "autocast", "mixed_pair", "pd_None", "pd_f32", "pd_bf16",
          "pd_f16", "skipped", "restart", "reload", "ev_abandon", "accumulated_step", "ranks", "hp_alpha1", "momenta",
          "conv", "checked"]
DTS = [None, "f32", "bf16", "f16"]


def gen(r, tier):
    md = G.pick(r, f32=5, bf16=3, f16=2, f64=2)
    structs = [r.choice(G.STRUCTS), r.choice(G.STRUCTS)]
    pd = [r.choice(DTS), r.choice(DTS)] if r.random() < 0.6 else [r.choice(DTS)] * 2
    if md == "f64":
        # singd adds matrices of K and C only through scalars, but refuses float64 for other structures
        for i in (0, 1):
            if pd[i] is None and structs[i] not in G.F64_OK:
                pd[i] = r.choice(["f32", "bf16"])
        structs = [s if s in G.F64_OK else r.choice(["dense", "diagonal"]) for s in structs]
    dist = r.random() < 0.25
    cfg = G.gen_cfg(r, f64=False, n_groups=1 if dist else r.choice([1, 1, 2]), structs=structs,
                    net_kw={"max_layers": 2 if dist else 3, "ln": 0.0}, big=r.random() < 0.25)
    cfg["dtype"] = md
    for i, g in enumerate(cfg["groups"]):
        hp = g["hp"]
        if md == "f64":
            hp["structures"] = [s if s in G.F64_OK else "dense" for s in hp["structures"]]
        hp["preconditioner_dtype"] = pd if i == 0 else [r.choice(DTS), r.choice(DTS)]
        hp["lr_cov"] = G.u(r, 0.005, 0.05)
        if r.random() < 0.2:
            hp["lr_cov"] = {"kind": "ramp", "a": hp["lr_cov"], "n": 2}
        hp["lr"] = G.u(r, 0.005, 0.05)
        hp["alpha1"] = r.choice([0.0, 0.3, 0.6])
        hp["kfac_like"] = r.random() < 0.2
    cfg["xscale"] = 0.5
    scaler = None
    if md in ("f32", "f64") and r.random() < 0.35:
        scaler = {"init_scale": 2.0 ** r.randint(0, 5), "growth_interval": r.choice([2, 100])}
    ev = hist.gen_passes(r, r.randint(3, 4 if dist else 7), p_eval=0.1, p_multi=0.3, p_retain=0.03, p_fwdonly=0.05,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0 if scaler else 0.1, via_model=0.0)
    if not dist:
        hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    out = []
    p_ovf = 0.2 if scaler else 0.0
    p_x = 0.0 if dist else r.choice([0.0, 0.15])
    for e in ev:
        if e["e"] == "fwd" and r.random() < p_ovf:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        if not dist and e["e"] == "zero" and r.random() < p_x:
            a = E.gen_abandon(r)
            a.pop("flags", None)
            out.append(a)
        out.append(e)
        if e["e"] == "step":
            if r.random() < p_x:
                out.append({"e": r.choice(["reload", "restart", "restart"])})
            if not dist and r.random() < 0.1:
                g = r.randrange(len(cfg["groups"]))
                k = r.choice(["alpha1", "lr", "damping", "T", "normalize_lr_cov"])
                v = {"alpha1": 0.4, "lr": 0.02, "damping": 0.1, "T": r.choice([1, 2]), "normalize_lr_cov": True}[k]
                if not (k == "alpha1" and cfg["groups"][g]["hp"]["kfac_like"]):
                    out.append({"e": "hp", "group": g, "key": k, "val": v})
    return {"cfg": cfg, "events": out, "scaler": scaler, "amp": md in ("f32", "bf16") and r.random() < 0.4,
            "ranks": r.choice([2, 2, 3]) if dist else 1, "seed": r.randrange(10**6), "p_switch": r.choice([0.05, 0.3])}


class Trainer(trainer.Trainer):
    amp = False

    @sut
    def forward(self, slot, seed, n, flags=None, mult=1.0, xy=None, ovf=None, evalmode=False, var=None):
        x, y = self.data(seed, n, var) if xy is None else xy
        self.model.train(not evalmode)
        run = self.model.one if (var or {}).get("single") else self.model
        if self.amp:
            # PyTorch casts under a process-wide lock if it caches: not for ranks that share a process
            with torch.autocast("cpu", dtype=torch.bfloat16, cache_enabled=not self.quiet):
                out = run(x, flags)
        else:
            out = run(x, flags)
        low = out.dtype in (torch.bfloat16, torch.float16)
        loss = nets.loss_fn(out.float() if low else out, y.float() if low and y.is_floating_point() else y, self.avg,
                            self.cfg["loss"], self.cfg["scale"] * mult)
        if ovf:
            loss = loss * ovf["val"]
        self.slots[slot] = loss


def cls_of(s):
    return env.SINGD.SUPPORTED_STRUCTURES[s]


def conf(cfg):
    """Layer -> (K class, C class, K dtype, C dtype), from the configuration alone."""
    out = {}
    for g in cfg["groups"]:
        hp = g["hp"]
        for l in g["layers"]:
            d = [trainer.DT[x] or trainer.DT[cfg["dtype"]] for x in hp["preconditioner_dtype"]]
            out[l] = (*[cls_of(s) for s in hp["structures"]], *d)
    return out


def shapes(model, cfg, want):
    """Shapes of a freshly built matrix of the configured class."""
    out = {}
    for l, op in nets.layer_ops(cfg["net"]).items():
        m = model.layers[l]
        b = int(m.bias is not None)
        dk = (m.weight.numel() // m.weight.shape[0]) + b
        dc = m.weight.shape[0]
        out[l] = (dk, dc)
    return out


def inspect(t, cfg, want, dims, what):
    opt = t.opt
    for attr, i in (("Ks", 0), ("Cs", 1), ("m_Ks", 0), ("m_Cs", 1)):
        d = getattr(opt, attr, None) or {}
        if attr in ("Ks", "Cs") and {trainer.short(n, t.cfg) for n in d} != set(want):
            raise Violation("entries", f"{what}: {attr} has {sorted(d)}, layers are {sorted(want)}")
        for n, m in d.items():
            l = trainer.short(n, t.cfg)
            cls, dt = want[l][i], want[l][2 + i]
            if type(m) is not cls:
                raise Violation("structure", f"{what}: {attr}[{n}] is a {type(m).__name__}, configured: {cls.__name__}")
            got = {str(x.dtype) for _, x in m.named_tensors()}
            if got - {str(dt)}:
                raise Violation("dtype", f"{what}: {attr}[{n}] is stored in {sorted(got)}, configured: {dt}")
            shp = [(k, tuple(x.shape)) for k, x in m.named_tensors()]
            ref = dims.setdefault((cls, dims[l][i]), None)
            if ref is None:
                ref = dims[cls, dims[l][i]] = [(k, tuple(x.shape)) for k, x in
                                               cls.eye(dims[l][i], dtype=torch.float32, device="cpu").named_tensors()]
            if shp != ref:
                raise Violation("shape", f"{what}: {attr}[{n}] has tensors {shp}, an identity matrix {ref}")
            if any(x.requires_grad for _, x in m.named_tensors()):
                raise Violation("grad", f"{what}: {attr}[{n}] requires a gradient")
    dt = trainer.DT[cfg["dtype"]]
    for n, p in t.model.named_parameters():
        if p.dtype != dt:
            raise Violation("dtype", f"{what}: parameter {n} became {p.dtype}")
        if p.grad is not None and p.grad.dtype != dt:
            raise Violation("dtype", f"{what}: gradient of {n} became {p.grad.dtype}")
        b = opt.state.get(p, {}).get("momentum_buffer") if p in opt.state else None
        if b is not None and (b.dtype != dt or b.shape != p.shape):
            raise Violation("dtype", f"{what}: momentum of {n} is {b.dtype} {tuple(b.shape)}")


def probes(scn, st):
    cfg = scn["cfg"]
    st["model_" + cfg["dtype"]] += 1
    st["autocast"] += scn["amp"]
    st["ranks"] += scn["ranks"] > 1
    st["conv"] += any(o["op"] == "conv" for o in nets.layer_ops(cfg["net"]).values())
    for g in cfg["groups"]:
        a, b = g["hp"]["preconditioner_dtype"]
        st["mixed_pair"] += a != b
        st[f"pd_{a}"] += 1
        st[f"pd_{b}"] += 1
        st["momenta"] += g["hp"]["alpha1"] > 0


def diverging(t):
    """Numbers so large that float16 may overflow."""
    return not compare.sane(t.obs(), 30.0)


def run(scn, res):
    probes(scn, res.stats)
    (run_ranks if scn["ranks"] > 1 else run_one)(scn, res)
    cfg = scn["cfg"]
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]), scn["amp"], scn["ranks"])


def trivial(cfg):
    return all(s == "dense" for g in cfg["groups"] for s in g["hp"]["structures"]) and all(
        d in (None, cfg["dtype"]) for g in cfg["groups"] for d in g["hp"]["preconditioner_dtype"]) and cfg["dtype"] == "f32"


def run_one(scn, res):
    cfg, st = scn["cfg"], res.stats

    def make(*a, **k):
        t = Trainer(*a, **k)
        t.amp = scn["amp"]
        return t

    class Sim(hist.Sim):
        def compare(self, what, keys=None):
            return True

    sim = Sim(cfg, res, scaler=scn["scaler"])
    sim.refs = []
    sim.sys = make(cfg, scaler=scn["scaler"])
    want = conf(cfg)
    dims = shapes(sim.sys.model, cfg, want)

    def reload(ev):
        sim.sys.opt.load_state_dict(trainer.from_bytes(trainer.to_bytes(sim.sys.opt.state_dict()),
                                                       E.weights_only_ok(sim.sys.opt)))
        st["reload"] += 1

    def restart(ev):
        wo = E.weights_only_ok(sim.sys.opt)
        data = trainer.to_bytes(sim.sys.checkpoint(with_grads=True))
        t = make(cfg, scaler=scn["scaler"])
        t.restore(trainer.from_bytes(data, wo))
        sim.sys = t
        sim.guard.slots.clear()
        st["restart"] += 1

    sim.ext.update(reload=reload, restart=restart)
    inspect(sim.sys, cfg, want, dims, "at construction")
    taken = 0
    for i, ev in enumerate(scn["events"]):
        if not sim.guard.ok(ev):
            continue
        ovf = ev["e"] == "step" and sim.sys.scaler is not None and sim.sys.grads_overflow()
        st["skipped"] += ovf
        try:
            sim.one(i, ev)
        except SutError as e:
            if "without overflow" in str(e.__cause__) and diverging(sim.sys):
                st["cut_off"] += 1
                break
            raise
        inspect(sim.sys, cfg, want, dims, f"event {i} ({ev['e']})")
        st["checked"] += 1
        if ev["e"] == "step":
            taken += not ovf
            o = sim.sys.obs()
            res.note_obs(o)
            if diverging(sim.sys):
                st["cut_off"] += 1
                break
    res.nontrivial = taken >= 2 and not trivial(cfg)


def run_ranks(scn, res):
    cfg, st, size = scn["cfg"], res.stats, scn["ranks"]
    events = twin_legal(scn)
    want = conf(cfg)
    job = Job(size, scn["seed"], p_switch=scn["p_switch"])
    scn = {**scn, "size": size, "init": "equal", "shards": "own", "sched": None}
    done = []

    def body(rank):
        k = distsim.Rank(scn, rank)
        k.t = Trainer(cfg, model=None, scaler=scn["scaler"])
        k.t.amp, k.t.quiet = scn["amp"], True
        dims = shapes(k.t.model, cfg, want)
        n = 0
        for i, ev in enumerate(events):
            try:
                k.act(ev)
            except SutError as e:
                if "without overflow" in str(e.__cause__):
                    return n
                raise
            inspect(k.t, cfg, want, dims, f"rank {rank}, event {i} ({ev['e']})")
            st["checked"] += 1
            n += ev["e"] == "step"
        return n

    got = job.run([body] * size)
    job.count(st)
    st["accumulated_step"] += sum(e["e"] == "bwd" for e in events) > sum(e["e"] == "step" for e in events)
    res.simtime += min(got)
    res.note(got, job.interleaving())
    res.nontrivial = min(got) >= 2 and not trivial(cfg)


def twin_legal(scn):
    g = hist.Guard(bool(scn["scaler"]))
    return [e for e in scn["events"] if g.ok(e)]

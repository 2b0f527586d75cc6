"""C20: layers without a gradient are left alone and never break training."""
from .. import compare
from .. import gen as G
from .. import hist, nets, trainer
from ..core import Violation

PROP = "C20"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("networks with optional branches that are left out, run under no_grad or detached in some micro-batches, and "
        "layers or single parameters that are frozen and unfrozen between iterations (also before construction), under update intervals, "
        "accumulation, momentum, weight decay, a gradient scaler and restarts; compared with the reference, and state of "
        "layers without gradient must be bitwise unchanged; non-trivial: some layer had no gradient in one step and "
        "had one in another; distinct: network, qualitative configuration, event kinds, freeze/branch pattern")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler"], "stub": [],
              "oracle": ["refopt.RefOpt", "bitwise comparison"]}
ASSUMPTIONS = ["gradients are set to None (not zero) before an iteration in which a layer is left out",
               "every iteration trains at least one layer",
               "in a layer with one frozen parameter, the pre-conditioner sees a zero gradient for it"]
PROBES = ["freeze", "unfreeze", "frozen_at_construction", "branch_off", "branch_nograd", "branch_detach", "partial_branch",
          "layer_without_grad", "scaler", "restart", "frozen_first_layer", "skipped", "half_layer_without_grad", "layer_not_called"]


def layer_list(ops, inside=False):
    for o in ops:
        if o["op"] in ("linear", "conv"):
            yield o["name"], inside
        if "ops" in o:
            yield from layer_list(o["ops"], inside or o["op"] == "branch")


def gen(r, tier):
    kw = {"max_layers": 4, "branch": 0.35, "ln": 0.08}
    scaler = r.random() < 0.2
    if scaler:
        kw["ln"] = 0.0
    cfg = G.gen_cfg(r, n_groups=r.choice([1, 1, 2]), net_kw=kw)
    cfg["params"] = "groups" if len(cfg["groups"]) > 1 else r.choice(["list", "groups", "generator"])
    branches = [o["name"] for o in nets._walk(cfg["net"]["ops"]) if o["op"] == "branch"]
    layers = list(layer_list(cfg["net"]["ops"]))
    keep = r.choice([l for l, inside in layers if not inside] or [l for l, _ in layers])
    can = [l for l, _ in layers if l != keep]
    bias = {o["name"] for o in nets._walk(cfg["net"]["ops"]) if o["op"] in ("linear", "conv") and o["bias"]}
    if r.random() < 0.4:  # single parameters
        can += [f"{l}.{r.choice(['weight', 'bias'])}" for l, _ in layers if l in bias and r.random() < 0.6]
    if dict(layers)[keep]:
        branches = []  # every layer is in a branch: leave all of them on
    pb = r.choice([0.2, 0.5])
    # parameters used without calling the layer (as torch.nn.MultiheadAttention does): a gradient, but no statistics
    plain = [o["name"] for o in nets._walk(cfg["net"]["ops"]) if o["op"] == "linear"] if r.random() < 0.15 else []

    def flags(t, j):
        f = {b: (r.choice([False, False, "nograd", "detach"]) if r.random() < pb else True) for b in branches}
        f.update({"fn:" + l: True for l in plain if r.random() < 0.3})
        return f

    ev = hist.gen_passes(r, r.randint(4, 9), p_eval=0.1, p_multi=0.35, p_retain=0.03, p_fwdonly=0.05, flags=flags,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0)
    hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    out, frozen = [], set()
    init = []
    if can and r.random() < 0.3:
        init = r.sample(can, r.randint(1, len(can)))
        frozen = set(init)
    pf = r.choice([0.0, 0.3, 0.6]) if branches else r.choice([0.3, 0.6])
    for i, e in enumerate(ev):
        if e["e"] == "zero":
            e["none"] = True
        if scaler and e["e"] == "fwd" and r.random() < 0.1:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        out.append(e)
        if e["e"] == "zero" and can and r.random() < pf:
            new = set(r.sample(can, r.randint(0, len(can))))
            if new - frozen:
                out.append({"e": "freeze", "layers": sorted(new - frozen), "on": True})
            if frozen - new:
                out.append({"e": "freeze", "layers": sorted(frozen - new), "on": False})
            frozen = new
        if e["e"] == "step" and r.random() < 0.05:
            out.append({"e": "restart"})
    return {"cfg": cfg, "events": out, "init": sorted(init), "scaler":
            {"init_scale": 2.0 ** r.randint(0, 10), "growth_interval": 2} if scaler else None}


def layer_state(sim, l):
    return {k: v for k, v in sim.sys.obs().items() if k.startswith(f"p.layers.{l}.") or
            k.startswith(f"mom.layers.{l}.") or k in (f"K.{l}", f"C.{l}", f"mK.{l}", f"mC.{l}")}


class Sim20(hist.Sim):
    """Bitwise comparison of layers without gradients across a step."""

    def pre_step(self, i, ev):
        m = self.sys.model
        self.idle = {l: layer_state(self, l) for g in self.cfg["groups"] for l in g["layers"]
                     if all(p.grad is None for p in m.layers[l].parameters())}
        self.idle_params = {f"{l}.{n}": self.param_state(l, n) for g in self.cfg["groups"] for l in g["layers"] if l not in self.idle
                            for n, p in m.layers[l].named_parameters() if p.grad is None}

    def param_state(self, l, n):
        return {k: v for k, v in self.sys.obs().items() if k in (f"p.layers.{l}.{n}", f"mom.layers.{l}.{n}")}


def run(scn, res):
    cfg = scn["cfg"]
    sim = Sim20(cfg, res, scaler=scn["scaler"])
    st = res.stats
    if scn["init"]:
        model = trainer.build_model(cfg)
        for l in scn["init"]:
            l, _, only = l.partition(".")
            for n, p in model.layers[l].named_parameters():
                if only and n != only:
                    continue
                p.requires_grad_(False)
                for ref in sim.refs:
                    ref.ref.frozen.add(f"layers.{l}.{n}")
        sim.sys = trainer.Trainer(cfg, model=model, scaler=scn["scaler"])
        st["frozen_at_construction"] += 1
    seen_idle, seen_active = set(), set()

    def after(i, ev):
        if ev["e"] == "fwd":
            vs = list((ev.get("flags") or {}).values())
            st["branch_off"] += False in vs
            st["branch_nograd"] += "nograd" in vs
            st["branch_detach"] += "detach" in vs
        if ev["e"] != "step":
            return
        st["skipped"] += sim.refs[0].overflow
        for l, before in sim.idle.items():
            now = layer_state(sim, l)
            if set(now) != set(before) or any(not bool((now[k] == before[k]).all()) for k in now):
                d = compare.diff(now, before)
                raise Violation("idle layer", f"event {i}: layer {l} has no gradient, but its state changed in step() {d}")
        for name, before in sim.idle_params.items():
            now = sim.param_state(*name.split("."))
            if set(now) != set(before) or any(not bool((now[k] == before[k]).all()) for k in now):
                raise Violation("idle parameter", f"event {i}: {name} has no gradient, but changed in step()")
        st["half_layer_without_grad"] += bool(sim.idle_params)
        st["layer_without_grad"] += bool(sim.idle)
        seen_idle.update(sim.idle)
        seen_active.update(l for g in cfg["groups"] for l in g["layers"] if l not in sim.idle)

    legal = []
    for i, ev in enumerate(scn["events"]):
        if ev["e"] == "freeze" and (sim.guard.have_grad or sim.guard.slots):
            continue
        if not sim.guard.ok(ev):
            continue
        if not sim.one(i, ev):
            break
        after(i, ev)
        legal.append(ev)
    st["scaler"] += scn["scaler"] is not None
    first = next(layer_list(cfg["net"]["ops"]))[0]
    st["frozen_first_layer"] += any(e["e"] == "freeze" and first in [l.partition(".")[0] for l in e["layers"]] for e in legal)
    slots = {}
    for e in legal:
        if e["e"] == "step":
            slots = {}
        if e["e"] == "fwd":
            for b, v in (e.get("flags") or {}).items():
                if b.startswith("fn:"):
                    st["layer_not_called"] += 1
                    continue
                slots.setdefault(b, set()).add(v)
                st["partial_branch"] += len(slots[b]) > 1
    res.nontrivial = bool(seen_idle & seen_active) and sim.judge.compared >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]), scn["init"],
                       [e.get("layers") or sorted((e.get("flags") or {}).items()) for e in scn["events"]])

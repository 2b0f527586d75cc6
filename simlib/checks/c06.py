"""C06: a step with overflowing gradients is skipped cleanly."""
from .. import gen as G
from .. import hist, nets
from ..core import Violation

PROP = "C06"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("histories under a real GradScaler in which losses, the gradient w.r.t. one layer's output (before or after "
        "singd's hook) or one weight gradient become inf/nan in some backward passes; afterwards gradients are cleared "
        "through the model or the optimizer; non-trivial: at least one skipped and two taken steps; distinct: network, "
        "qualitative configuration, event and overflow kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.amp.GradScaler", "torch autograd"], "stub": [],
              "oracle": ["exact equality across a skipped step", "refopt.RefOpt with the step counted but not taken"]}
ASSUMPTIONS = ["gradients are zeroed between steps, as torch.amp requires", "the scaler handles the only optimizer"]
PROBES = ["skipped", "taken", "ovf_loss", "ovf_layer", "ovf_layer_early", "ovf_param", "consecutive_skips", "first_skipped",
          "partial_accumulation", "skip_off_refresh", "cleared_by_model", "restart"]


def poison(r, layers, net):
    k = r.choice(["loss", "loss", "layer", "layer", "param"])
    if k == "layer" and any(o.get("reentrant") for o in nets._walk(net["ops"])):
        k = "param"  # (the layer's output that is back-propagated through only exists during the backward pass)
    o = {"kind": k, "val": r.choice([float("inf"), float("nan"), float("-inf")])}
    if k != "loss":
        o["layer"], o["i"] = r.choice(layers), r.randrange(50)
    if k == "layer":
        o["early"] = r.random() < 0.5
    return o


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3, "ln": 0.0})
    layers = [l for g in cfg["groups"] for l in g["layers"]]
    ev = hist.gen_passes(r, r.randint(4, 9), p_eval=0.1, p_multi=0.3, p_retain=0.0, p_fwdonly=0.05,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0,
                         via_model=r.choice([0.0, 0.7, 1.0]), p_clip=r.choice([0.0, 0.0, 0.4]))
    hist.vary(r, ev, cfg["net"], 0.15)
    p = r.choice([0.15, 0.3, 0.6])
    out = []
    for e in ev:
        if e["e"] == "fwd" and r.random() < p:
            e["ovf"] = poison(r, layers, cfg["net"])
        out.append(e)
        if e["e"] == "step" and r.random() < 0.05:
            out.append({"e": "restart"})
    return {"cfg": cfg, "events": out,
            "scaler": {"init_scale": r.choice([1.0, 2.0 ** r.randint(0, 16), 1000.0]), "growth_interval":
                       r.choice([1, 2, 100]), "backoff_factor": r.choice([0.5, 0.25, 0.9])}}


class Sim06(hist.Sim):
    before = None

    def pre_step(self, i, ev):
        self.before = self.sys.obs()
        self.was_ovf = self.refs[0].overflow


def run(scn, res):
    sim = Sim06(scn["cfg"], res, scaler=scn["scaler"], clipped=any(e.get("clip") for e in scn["events"]))
    st = res.stats
    state = {"prev": False, "pois": 0, "clean": 0}

    def after(i, ev):
        if ev["e"] == "fwd" and ev.get("ovf"):
            st["ovf_" + ev["ovf"]["kind"] + ("_early" if ev["ovf"].get("early") else "")] += 1
        if ev["e"] == "bwd":
            state["pois" if sim.sys.grads_overflow() else "clean"] += 1
        if ev["e"] == "zero":
            state["pois"] = state["clean"] = 0
            st["cleared_by_model"] += state["prev"] and ev["via"] == "model"
        if ev["e"] != "step":
            return
        if not sim.was_ovf:
            st["taken"] += 1
            state["prev"] = False
            return
        st["skipped"] += 1
        st["consecutive_skips"] += state["prev"]
        st["first_skipped"] += sim.guard.stepno == 1
        st["partial_accumulation"] += state["clean"] > 0
        st["skip_off_refresh"] += any((sim.guard.stepno - 1) % g["hp"]["T"] for g in scn["cfg"]["groups"])
        state["prev"] = True
        now = sim.sys.obs()
        if set(now) != set(sim.before):
            raise Violation("state", f"event {i}: state entries changed in a skipped step: {set(now) ^ set(sim.before)}")
        for k in now:
            if not bool((now[k] == sim.before[k]).all()):
                raise Violation("changed", f"event {i}: {k} changed in a skipped step")
        if not sim.warnings:
            raise Violation("no warning", f"event {i}: step {sim.guard.stepno - 1} was skipped without a warning")

    sim.run(scn["events"], after)
    res.nontrivial = st["skipped"] >= 1 and st["taken"] >= 2
    res.sig = hist.sig(hist.cfg_sig(scn["cfg"]), hist.ev_sig(scn["events"]),
                       [(e["ovf"]["kind"], e["ovf"].get("early")) for e in scn["events"] if e.get("ovf")])

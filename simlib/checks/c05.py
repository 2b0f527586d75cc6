"""C05: abandoned passes followed by zero_grad() leave no trace."""
from .. import events as E
from .. import gen as G
from .. import hist

PROP = "C05"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("training history with abandoned passes: an exception (out of memory, interrupt, error) at a random tensor "
        "operation or at a random executed line of singd inside forward or backward, a non-finite loss, discarded "
        "batches, a forward pass never back-propagated; each followed by the optimizer's zero_grad, possibly in the "
        "middle of an accumulation; non-trivial: at least one fault fired or batch was discarded and two steps were "
        "compared afterwards; distinct: network, qualitative configuration, kinds of events and faults")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler"], "stub": [],
              "oracle": ["refopt.RefOpt never sees the abandoned passes"]}
ASSUMPTIONS = ["zero_grad is the optimizer's (Module.zero_grad of the model cannot reach the optimizer)"]
PROBES = ["fault_fwd_op", "fault_bwd_op", "fault_fwd_line", "fault_bwd_line", "fault_oom", "fault_interrupt",
          "fault_error", "abandon_discard", "abandon_nonfinite", "abandon_fwdonly", "mid_accumulation"]


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3})
    ev, out = hist.gen_passes(r, r.randint(3, 7), p_eval=0.1, p_multi=0.3, p_retain=0.05, p_fwdonly=0.05,
                              zero_where=r.choice(["before", "after"]), p_nozero=0.0), []
    hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    p = r.choice([0.1, 0.25, 0.5])
    for e in ev:
        if e["e"] == "fwd" and r.random() < p:
            for _ in range(r.choice([1, 1, 2])):
                out.append(E.gen_abandon(r))
            out.append({"e": "zero", "none": r.random() < 0.7, "via": "opt"})
        out.append(e)
    scaler = {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": 3} if r.random() < 0.15 else None
    return {"cfg": cfg, "events": out, "scaler": scaler}


def run(scn, res):
    sim = hist.Sim(scn["cfg"], res, scaler=scn["scaler"])
    state = {"n": 0, "after": 0, "bwd": False}

    def after(i, ev):
        if ev["e"] == "abandon":
            state["n"] += 1
            res.stats["mid_accumulation"] += state["bwd"]
        if ev["e"] == "bwd":
            state["bwd"] = True
        if ev["e"] in ("zero", "step"):
            state["bwd"] = False
        if ev["e"] == "step" and state["n"]:
            state["after"] += 1

    sim.run(scn["events"], after)
    res.nontrivial = state["after"] >= 2
    res.sig = hist.sig(hist.cfg_sig(scn["cfg"]), hist.ev_sig(scn["events"]),
                       [(e["kind"], e.get("where"), e.get("exc"), e.get("frac")) for e in scn["events"]
                        if e["e"] == "abandon"])

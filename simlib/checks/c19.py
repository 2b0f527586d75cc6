"""C19: replacing a parameter's storage does not affect training."""
import torch

from .. import gen as G
from .. import hist, trainer

PROP = "C19"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("histories in which the storages of parameters are re-allocated, exchanged between parameters, moved into a flat "
        "buffer in changing order (addresses re-used by other parameters), freed and re-allocated, swapped out for "
        "evaluation, changed in memory layout, or assigned new values through .data, at any point between calls; also "
        "construction on placeholder storages shared by all parameters; non-trivial: >= 1 such event and >= 2 compared "
        "steps; distinct: network, qualitative configuration, kinds of events")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd"], "stub": [],
              "oracle": ["refopt.RefOpt (values copied)"]}
ASSUMPTIONS = ["the parameter objects stay the same"]
KINDS = ["realloc", "swap", "flat", "flat", "free", "vector", "average", "layout", "contiguous"]
PROBES = ["storage_" + k for k in sorted(set(KINDS))] + ["storage_set", "storage_swapped_pair", "deferred", "multi_group",
                                                       "pending_graph", "restart"]


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.1, n_groups=r.choice([1, 2, 2, 3]), net_kw={"max_layers": 4})
    ev = hist.gen_passes(r, r.randint(3, 7), p_eval=0.1, p_multi=0.25, p_retain=0.03, p_fwdonly=0.05)
    hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    out = []
    p = r.choice([0.1, 0.3])
    pending = 0
    for e in ev:
        out.append(e)
        pending += (e["e"] == "fwd") - (e["e"] in ("bwd", "drop") and not e.get("retain"))
        if r.random() < p:
            if r.random() < 0.1 and pending == 0:
                out.append({"e": "setval", "seed": r.randrange(10**6)})
            else:
                out.append({"e": "storage", "kind": r.choice(KINDS), "mask": r.randrange(1, 2**30)})
        if e["e"] == "step" and r.random() < 0.04:
            out.append({"e": "restart"})
    return {"cfg": cfg, "events": out, "deferred": r.random() < 0.25}


def run(scn, res):
    cfg = scn["cfg"]
    sim = hist.Sim(cfg, res)
    st = res.stats
    if scn["deferred"]:
        model = trainer.build_model(cfg)
        vals = [p.data for p in model.parameters()]
        z = torch.zeros(1, dtype=sim.sys.dtype)
        for p in model.parameters():
            p.data = z.expand(p.shape)
        sim.sys = trainer.Trainer(cfg, model=model)
        for p, v in zip(model.parameters(), vals):
            p.data = v
        st["deferred"] += 1
    n = 0
    for i, ev in enumerate(scn["events"]):
        if sim.guard.slots and (ev["e"] == "setval" or ev.get("kind") in ("swap", "flat")):
            continue  # overwrites memory that pending graphs refer to
        if not sim.guard.ok(ev):
            continue
        n += ev["e"] in ("storage", "setval")
        st["pending_graph"] += ev["e"] == "storage" and bool(sim.guard.slots)
        if not sim.one(i, ev):
            break
    st["multi_group"] += len(cfg["groups"]) > 1
    res.nontrivial = (n > 0 or scn["deferred"]) and sim.judge.compared >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]),
                       [e.get("kind") for e in scn["events"] if e["e"] == "storage"], scn["deferred"])

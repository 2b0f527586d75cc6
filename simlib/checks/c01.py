"""C01: every training history follows the documented update rule (refinement against refopt)."""
import torch

from .. import gen as G
from .. import hist, nets, trainer

PROP = "C01"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 80000}
TIME_UNIT = "optimizer steps"
RULE = ("random network x configuration x event list (forward, backward in any order, retained backward, evaluation, "
        "forward without backward, zero_grad, step; batch sizes, input sizes and memory layouts vary from pass to pass, "
        "some passes have no batch axis or no data; the optimizer gets the model, a part of it, or a bare layer); non-trivial: "
        ">= 2 steps compared with the reference and >= 1 "
        "pre-conditioner refresh; distinct: network shape, qualitative hyper-parameters and event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.nn modules"],
              "stub": [], "oracle": ["refopt.RefOpt in float64 (and float32, or noisy, for the error estimate)"]}
ASSUMPTIONS = ["torch's Linear, Conv2d and autograd are right",
               "float64 only for dense and diagonal (singd refuses float64 for the other structures); those run in "
               "float32 with an adaptive tolerance",
               "half-precision pre-conditioners: errors at most 15 times those of references with random rounding errors",
               "backward() of a forward pass happens before the next step()"]
PROBES = ["dtype_f64", "dtype_f32", *("structure_" + s for s in G.STRUCTS), "layer_conv", "layer_linear", "ev_retain",
          "ev_eval", "ev_drop", "accumulated_step", "multi_group", "reused_layer", "low_precision", "no_zero_grad_between_steps",
          "varied_n", "varied_size", "varied_layout", "varied_single", "derived_layer", "many_axes", "zero_lr", "zero_damping", "zero_lr_cov", "root_layer", "root_layers", "root_outer"]


def gen(r, tier):
    if r.random() < 0.1:
        cfg = G.low_precision(r, G.gen_cfg(r, f64=False, n_groups=r.choice([1, 1, 1, 2]), net_kw={"max_layers": 3}))
        return {"cfg": cfg, "events": hist.vary(r, hist.gen_passes(r, r.randint(2, 6)), cfg["net"], cfg=cfg)}
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 1, 1, 2]))
    for g in cfg["groups"]:
        if r.random() < 0.08:  # values at the border of what is accepted
            k, v = r.choice([("lr", 0.0), ("damping", 0.0), ("lr_cov", 0.0), ("momentum", 1.0)])
            g["hp"][k] = v
    steps = r.randint(3, 7) if tier == "quick" else r.randint(3, 12)
    return {"cfg": cfg, "events": hist.vary(r, hist.gen_passes(r, steps, p_clip=r.choice([0.0, 0.0, 0.3])), cfg["net"], cfg=cfg)}


def run(scn, res):
    cfg = scn["cfg"]
    sysm = trainer.Trainer(cfg)
    refs = [trainer.RefTrainer(cfg, sysm)]
    if cfg.get("low"):
        refs += [trainer.RefTrainer(cfg, sysm, noise=i) for i in range(3)]
        res.stats["low_precision"] += 1
    elif cfg["dtype"] == "f32":
        refs.append(trainer.RefTrainer(cfg, sysm, dtype=torch.float32))
    judge = hist.Judge(cfg, res)
    guard = hist.Guard()
    bwd = 0
    for i, ev in enumerate(scn["events"]):
        if not guard.ok(ev):
            continue
        hist.note(res.stats, ev)
        first = hist.refs_first(cfg, refs, ev)
        if first and judge.diverged(refs[0]):
            break
        hist.apply(sysm, ev, cfg["n"])
        for ref in [] if first else refs:
            hist.apply(ref, ev, cfg["n"])
        if ev["e"] == "bwd":
            bwd += 1
        if ev["e"] == "step":
            res.stats["accumulated_step"] += bwd > 1
            bwd = 0
            res.simtime += 1
            o = sysm.obs()
            res.note_obs(o)
            what = f"after step {guard.stepno - 1} (event {i})"
            if not (judge.check_low(what, o, refs[0].obs(), [ref.obs() for ref in refs[1:]]) if cfg.get("low") else
                    judge.check(what, o, refs[0].obs(), refs[1].obs() if len(refs) > 1 else None)):
                break
            if i + 1 < len(scn["events"]) and scn["events"][i + 1]["e"] not in ("zero", "eval"):
                res.stats["no_zero_grad_between_steps"] += 1
    res.stats["dtype_" + cfg["dtype"]] += 1
    res.stats[f"root_{cfg['root']}"] += 1
    res.stats["derived_layer"] += any(o.get("derived") for o in nets.layer_ops(cfg["net"]).values())
    res.stats["many_axes"] += len(cfg["net"]["input"].get("s", [])) > 2
    for g in cfg["groups"]:
        for s in g["hp"]["structures"]:
            res.stats["structure_" + s] += 1
        for k in ("lr", "damping", "lr_cov"):
            res.stats["zero_" + k] += g["hp"][k] == 0.0
    for o in nets.layer_ops(cfg["net"]).values():
        res.stats["layer_" + o["op"]] += 1
    res.stats["multi_group"] += len(cfg["groups"]) > 1
    res.stats["reused_layer"] += any(o["op"] == "again" for o in nets._walk(cfg["net"]["ops"]))
    res.nontrivial = judge.compared >= 2 and bool(refs[0].ref.refreshes)
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]))

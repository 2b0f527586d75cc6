"""C14: groups are independent and only listed parameters are trained."""
import torch

from .. import gen as G
from .. import hist, nets
from ..core import Violation

PROP = "C14"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("1-4 parameter groups with unrelated hyper-parameters and structures, layers not given to the optimizer (left "
        "alone or trained by SGD), biases or weights not given, normalisation layers, learning-rate schedulers and "
        "hyper-parameter changes through param_groups between steps, restarts; compared layer by layer with the reference, "
        "parameters nobody trains must be bitwise unchanged; non-trivial: several groups, or a change, or an unlisted "
        "parameter, and >= 2 compared steps; distinct: network, qualitative configuration, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.optim.lr_scheduler", "torch.optim.SGD"], "stub": [],
              "oracle": ["refopt.RefOpt with per-layer hyper-parameters", "bitwise comparison"]}
ASSUMPTIONS = ["hyper-parameters are changed between a step and the next forward pass",
               "alpha1 is not switched off and on again"]
PROBES = ["groups_1", "groups_2", "groups_3", "const_layer", "aux_layer", "skip_bias", "skip_weight", "ev_hp", "sched_exp",
          "sched_step", "sched_cos", "sched_warm", "zero_value", "restart", "hp_alpha1_on", "hp_T", "norm_layer"]
KEYS = ["lr", "lr", "momentum", "damping", "alpha1", "weight_decay", "T", "lr_cov", "normalize_lr_cov", "kfac_approx",
        "kfac_like"]


def value(r, key, hp):
    if key in ("lr", "damping", "lr_cov") and r.random() < 0.1:
        return 0.0
    if key == "lr":
        return G.u(r, 0.01, 0.2)
    if key == "momentum":
        return r.choice([0.0, 0.3, 0.7])
    if key == "damping":
        return G.u(r, 0.02, 0.5)
    if key == "alpha1":
        return None if hp["kfac_like"] else r.choice([0.2, 0.4, 0.6])
    if key == "weight_decay":
        return r.choice([0.0, 0.1, 0.3])
    if key == "T":
        return r.choice([1, 2, 3])
    if key == "lr_cov":
        return r.choice([G.u(r, 0.03, 0.3), {"kind": "ramp", "a": G.u(r, 0.05, 0.3), "n": 3}])
    if key == "normalize_lr_cov":
        return not hp[key]
    if key == "kfac_approx":
        return r.choice(["expand", "reduce"])
    if key == "kfac_like":
        return None if hp["alpha1"] else not hp[key]
    raise KeyError(key)


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.1, n_groups=r.choice([1, 2, 2, 3, 4]), net_kw={"max_layers": 4})
    cfg["params"] = "groups" if len(cfg["groups"]) > 1 else r.choice(["list", "groups", "generator"])
    layers = [l for g in cfg["groups"] for l in g["layers"]]
    cfg["const"] = []
    mode = r.choice(["all", "all", "const", "aux", "skip"])
    if mode in ("const", "aux") and len(layers) > 1:
        out = r.sample(layers, r.randint(1, len(layers) - 1))
        for g in cfg["groups"]:
            g["layers"] = [l for l in g["layers"] if l not in out]
        cfg["groups"] = [g for g in cfg["groups"] if g["layers"]]
        if mode == "const":
            cfg["const"] = out
    if mode == "skip":
        ops = nets.layer_ops(cfg["net"])
        for g in cfg["groups"]:
            g["skip"] = [f"{l}.{r.choice(['bias', 'bias', 'weight'])}" for l in g["layers"]
                         if ops[l]["bias"] and r.random() < 0.6]
    ev = hist.gen_passes(r, r.randint(4, 9), p_eval=0.1, p_multi=0.2, p_retain=0.03, p_fwdonly=0.05)
    hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    sched = None
    if r.random() < 0.35:
        k = r.choice(["exp", "step", "cos", "warm"])
        sched = {"exp": {"kind": "exp", "g": 0.8}, "step": {"kind": "step", "n": 2, "g": 0.5},
                 "cos": {"kind": "cos", "n": 5}, "warm": {"kind": "warm", "n": r.choice([2, 3])}}[k]
    out = []
    hps = [dict(g["hp"]) for g in cfg["groups"]]
    p = r.choice([0.0, 0.3, 0.7])
    for e in ev:
        out.append(e)
        if e["e"] != "step":
            continue
        while r.random() < p:
            i = r.randrange(len(hps))
            k = r.choice(KEYS)
            if k == "lr" and sched:
                continue
            v = value(r, k, hps[i])
            if v is not None:
                hps[i][k] = v
                out.append({"e": "hp", "group": i, "key": k, "val": v})
        if r.random() < 0.05:
            out.append({"e": "restart"})
    return {"cfg": cfg, "events": out, "sched": sched}


def run(scn, res):
    cfg = scn["cfg"]
    sim = hist.Sim(cfg, res, sched=scn["sched"])
    st = res.stats
    skip = {"layers." + n for g in cfg["groups"] for n in g.get("skip", ())}
    for ref in sim.refs:
        ref.ref.frozen = set(skip)
    const = skip | {f"layers.{l}.{n}" for l in cfg["const"] for n, _ in sim.sys.model.layers[l].named_parameters()}
    first = {k: v.detach().clone() for k, v in sim.sys.model.named_parameters() if k in const}

    def after(i, ev):
        if ev["e"] == "step":
            for k, v in sim.sys.model.named_parameters():
                if k in const and not torch.equal(v.detach(), first[k]):
                    raise Violation("modified", f"event {i}: {k} was not given to the optimizer but changed")
        if ev["e"] == "hp" and ev["key"] == "alpha1":
            st["hp_alpha1_on"] += 1
        st["zero_value"] += ev["e"] == "hp" and ev["key"] in ("lr", "damping", "lr_cov") and ev["val"] == 0.0

    sim.run(scn["events"], after)
    st[f"groups_{len(cfg['groups'])}"] += 1
    st["const_layer"] += bool(cfg["const"])
    trained = {l for g in cfg["groups"] for l in g["layers"]} | set(cfg["const"])
    st["aux_layer"] += any(l not in trained for l in nets.layer_ops(cfg["net"]))
    st["skip_bias"] += any(n.endswith("bias") for n in skip)
    st["skip_weight"] += any(n.endswith("weight") for n in skip)
    st["norm_layer"] += any(o["op"] == "ln" for o in nets._walk(cfg["net"]["ops"]))
    if scn["sched"]:
        st["sched_" + scn["sched"]["kind"]] += 1
    changed = any(e["e"] == "hp" for e in scn["events"]) or scn["sched"]
    res.nontrivial = sim.judge.compared >= 2 and bool(len(cfg["groups"]) > 1 or changed or const or st["aux_layer"])
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]), [e.get("key") for e in scn["events"]],
                       sorted(const))

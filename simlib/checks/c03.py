"""C03: gradient accumulation equals the full mini-batch."""
import torch

from .. import gen as G
from .. import hist, nets, trainer
from ..core import Violation

PROP = "C03"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("every step splits its mini-batch into 1-4 equally sized micro-batches (loss divided by their number if it is a "
        "mean) which are back-propagated in a random order, all forward passes first or one by one, with evaluation "
        "passes and never-finished forward passes in between, under a gradient scaler in some runs; compared with the "
        "reference on whole mini-batches; non-trivial: >= 2 compared steps, one of them with >= 2 micro-batches in a "
        "refresh step; distinct: network, qualitative configuration, splits and orders")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler"], "stub": [],
              "oracle": ["refopt.RefOpt on whole mini-batches",
                         "refopt.RefOpt on micro-batches: only to recognise the known finding"]}
ASSUMPTIONS = ["micro-batches of one step have the same size", "networks treat examples independently"]
PROBES = ["micro_1", "micro_2", "micro_3", "micro_4", "order_shuffled", "forwards_first", "eval_between", "T>1",
          "avg_None", "avg_batch", "avg_batch+sequence", "scaler", "known_config"]
FINDING = "accumulation-sum-or-kfac-like"


def gen(r, tier):
    scaler = r.random() < 0.2
    cfg = G.gen_cfg(r, ckpt=0.12, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3, **({"ln": 0.0} if scaler else {})})
    steps = []
    for _ in range(r.randint(3, 6)):
        m = r.choice([1, 2, 2, 3, 4])
        order = list(range(m))
        if r.random() < 0.7:
            r.shuffle(order)
        steps.append({"e": "iter", "seed": r.randrange(10**6), "m": m, "order": order, "ff": r.random() < 0.4,
                      "extra": [r.choice([None, None, "nograd", "evalmode", "fwdonly", "infer"]) for _ in range(m + 1)],
                      "b": r.choice([1, 2, 3]), "zero": {"none": r.random() < 0.7, "via": r.choice(["opt", "model"])}})
    cfg["n"] = r.choice([1, 2, 3])
    size = nets.sizes(cfg["net"])
    for e in steps:
        if size and r.random() < 0.2:
            e["var"] = {"size": [a + r.choice([0, 1, 2]) for a in size]}
    return {"cfg": cfg, "events": steps, "scaler": {"init_scale": 2.0 ** r.randint(0, 8), "growth_interval": 2}
            if scaler else None}


def run(scn, res):
    cfg, st = scn["cfg"], res.stats
    avg = cfg["groups"][0]["hp"]["loss_average"]
    sysm = trainer.Trainer(cfg, scaler=scn["scaler"])
    full = [trainer.RefTrainer(cfg, sysm)]
    micro = [trainer.RefTrainer(cfg, sysm)]
    if cfg["dtype"] == "f32":
        full.append(trainer.RefTrainer(cfg, sysm, dtype=torch.float32))
        micro.append(trainer.RefTrainer(cfg, sysm, dtype=torch.float32))
    can_deviate = avg is None or any(g["hp"]["kfac_like"] for g in cfg["groups"])
    jf = hist.Judge(cfg, res)
    jm = hist.Judge(cfg, res)
    deviated = False
    acc = 0
    for i, ev in enumerate(scn["events"]):
        m, b = ev["m"], ev.get("b", cfg["n"])
        x, y = sysm.data(ev["seed"], m * b, ev.get("var"))
        parts = [(x[j * b:(j + 1) * b], y[j * b:(j + 1) * b]) for j in range(m)]
        mult = 1.0 / m if avg else 1.0
        for t in (sysm, *full, *micro):
            z = ev["zero"]
            t.zero_grad(z["none"], z["via"])
        for t in full:
            t.forward("full", 0, 0, xy=(x, y))
            t.backward("full")
        for t in (sysm, *micro):
            if ev["ff"]:
                for j in range(m):
                    t.forward(f"m{j}", 0, 0, mult=mult, xy=parts[j])
            for k, j in enumerate(ev["order"]):
                if t is sysm and ev["extra"][k]:
                    t.evaluate(ev["seed"] + k, 2, ev["extra"][k])
                    st["eval_between"] += 1
                if not ev["ff"]:
                    t.forward(f"m{j}", 0, 0, mult=mult, xy=parts[j])
                t.backward(f"m{j}")
            if t is sysm and ev["extra"][-1]:
                t.evaluate(ev["seed"], 1, ev["extra"][-1])
        for t in (sysm, *full, *micro):
            t.step()
        st[f"micro_{m}"] += 1
        st["order_shuffled"] += ev["order"] != sorted(ev["order"])
        st["forwards_first"] += ev["ff"] and m > 1
        acc += m > 1 and any(i % g["hp"]["T"] == 0 for g in cfg["groups"])
        res.simtime += 1
        o = sysm.obs()
        res.note_obs(o)
        what = f"after step {i} (micro-batches {[e['m'] for e in scn['events'][:i + 1]]})"
        try:
            if deviated:
                if not jm.check(what + ", accumulated-statistics model", o, *[t.obs() for t in micro]):
                    break
            elif not jf.check(what, o, *[t.obs() for t in full]):
                break
        except Violation:
            if deviated or not can_deviate:
                raise
            # the known finding has this exact shape and no other
            if not jm.check(what + " (nor does it match the known finding)", o, *[t.obs() for t in micro]):
                break
            deviated = True
            res.known.append(FINDING)
    st["T>1"] += any(g["hp"]["T"] > 1 for g in cfg["groups"])
    st[f"avg_{avg}"] += 1
    st["scaler"] += scn["scaler"] is not None
    st["known_config"] += can_deviate
    res.nontrivial = jf.compared + jm.compared >= 2 and acc > 0
    res.sig = hist.sig(hist.cfg_sig(cfg), [(e["m"], e["order"], e["ff"], e["extra"]) for e in scn["events"]])

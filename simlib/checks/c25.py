"""C25: empty mini-batches."""
from .. import distsim, hist, nets
from .. import gen as G
from . import c01, c10, c21

PROP = "C25"
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 20000}
TIME_UNIT = "optimizer steps"
RULE = ("histories as in C01 under summed losses in which many passes have no data; distributed runs as in C10 in which shards of some "
        "ranks are empty; programs as in C21 with operands without columns; non-trivial: an empty pass, shard or operand was "
        "processed and results were compared afterwards; distinct: as in C01, C10 and C21")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd"],
              "stub": ["torch.distributed (simulated collectives)"],
              "oracle": ["refopt.RefOpt", "equality of ranks", "dense matrices with error bounds"]}
ASSUMPTIONS = ["the loss is a sum (an average over no data is not defined)", "the network itself can process an empty batch"]
PROBES = ["empty_batch", "empty_shard", "no_columns", "accumulated_step", "layer_conv", "layer_linear"]


def summed(cfg):
    return nets.emptyable(cfg["net"]) and all(g["hp"]["loss_average"] is None for g in cfg["groups"])


def gen(r, tier):
    kind = r.choice(["train", "train", "train", "dist", "ops"])
    if kind == "ops":
        scn = c21.gen(r, tier)
        for t in scn["threads"]:
            for e in t["events"]:
                if r.random() < 0.5:
                    e["cols"] = 0
        return {"kind": kind, **scn}
    if kind == "dist":
        while True:
            scn = distsim.gen_dist(r, max_size=4, p_scaler=0.0, unequal=True, empty=True)
            if summed(scn["cfg"]):
                return {"kind": kind, **scn}
    while True:
        cfg = G.gen_cfg(r, n_groups=r.choice([1, 1, 1, 2]), hp_kw={"avg": "none"}, net_kw={"max_layers": 3})
        if summed(cfg):
            break
    ev = hist.vary(r, hist.gen_passes(r, r.randint(3, 6)), cfg["net"], p=0.7, cfg=cfg, empty=True)
    return {"kind": kind, "cfg": cfg, "events": ev}


def shrinks(scn):
    from ..core import default_shrinks
    return getattr(c21, "shrinks", default_shrinks)(scn) if scn["kind"] == "ops" else default_shrinks(scn)


def run(scn, res):
    st = res.stats
    if scn["kind"] == "ops":
        c21.run(scn, res)
        res.nontrivial = res.nontrivial and st["no_columns"] > 0
    elif scn["kind"] == "dist":
        c10.run(scn, res)
        st["empty_shard"] += any(0 in (e.get("var") or {}).get("each", []) for e in scn["events"])
        res.nontrivial = res.nontrivial and st["empty_shard"] > 0
    else:
        c01.run(scn, res)
        res.nontrivial = res.nontrivial and st["empty_batch"] > 0

"""C10: data-parallel replicas stay identical under every schedule."""
import torch

from .. import compare, distsim, hist
from ..core import Violation

PROP = "C10"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
HASH_TWINS = {"quick": 40, "thorough": 1000}
TIME_UNIT = "scheduling decisions"
RULE = ("some scenarios are executed in two processes with different Python hash seeds, which must call the same collectives; "
        "2-4 simulated ranks train on different shards; parameters start equal or are broadcast before or after the optimizer is "
        "built; accumulation, rank-specific evaluation and abandoned forward passes, gradient scaling with overflows on all "
        "ranks, hyper-parameter changes and schedulers; random interleaving at every tensor operation (or line), delayed "
        "completions, random reduction order, stalls; every rank's parameters, momenta and pre-conditioners are compared "
        "after every step; non-trivial: two compared steps; distinct: interleaving, network and configuration")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler"],
              "stub": ["torch.distributed (simulated collectives)"], "oracle": ["equality of the ranks"]}
ASSUMPTIONS = ["all ranks back-propagate through the same layers in the same order", "collectives give all ranks the same bits"]
PROBES = ["stalls", "low_precision", "skipped", "T>1", "broadcast", "rank_specific", "sum", "accumulated", "subset_overflow",
          "unequal_shards"]
KNOWN = "grad-scaler-overflow-on-some-ranks"


hash_first, hash_second, hash_compare = distsim.hash_first, distsim.hash_second, distsim.hash_compare


def gen(r, tier):
    scn = distsim.gen_dist(r, max_size=4, unequal=True)
    if scn["scaler"] and r.random() < 0.2:  # known limitation
        for e in scn["events"]:
            if e["e"] == "fwd" and r.random() < 0.4:
                e["ovf"] = {"kind": "loss", "val": float("inf"), "ranks": [r.randrange(scn["size"])]}
    return scn


def probes(scn, st, events):
    cfg = scn["cfg"]
    st["T>1"] += any(g["hp"]["T"] > 1 for g in cfg["groups"])
    st["broadcast"] += scn["init"] != "equal"
    st["rank_specific"] += any(e.get("rank") is not None for e in events)
    st["unequal_shards"] += any("each" in (e.get("var") or {}) for e in events)
    st["low_precision"] += bool(cfg.get("low"))
    st["sum"] += cfg["groups"][0]["hp"]["loss_average"] is None
    n = 0
    for e in events:
        if e["e"] == "bwd":
            n += 1
        if e["e"] == "step":
            st["accumulated"] += n > 1
            n = 0


def same(what, a, b, limit=1e3):
    """Equal up to rounding; usually bit by bit."""
    if a.keys() != b.keys():
        raise Violation("state", f"{what}: entries differ: {sorted(set(a) ^ set(b))}")
    if all(bool(((a[k] == b[k]) | (torch.isnan(a[k]) & torch.isnan(b[k]))).all()) for k in a):
        return True
    if not (compare.sane(a, limit) or compare.sane(b, limit)):
        return False
    d, w = compare.diff(a, b)
    if d > 1e-4:
        raise Violation("divergence", f"{what}: {w} differs by {d:.3g} (relative)")
    return True


def run(scn, res):
    st = res.stats
    events = distsim.legal(scn)
    probes(scn, st, events)
    try:
        got, ovf, job = distsim.train(scn, res, events)
    except distsim.Split:
        st["subset_overflow"] += 1
        res.known.append(KNOWN)
        return
    cut = distsim.mixed(ovf)
    st["skipped"] += sum(o.get(0, False) for o in ovf.values())
    n = 0
    for s in range(len(got[0])):
        res.note_obs(got[0][s])
        for r in range(1, scn["size"]):
            try:
                ok = same(f"step {s}, rank {r} and rank 0", got[r][s], got[0][s])
            except Violation:
                if cut is not None and s + 1 >= cut:
                    st["subset_overflow"] += 1
                    res.known.append(KNOWN)
                    return
                raise
        if not ok:
            st["cut_off"] += 1
            break
        n += 1
    res.nontrivial = n >= 2
    res.note(job.interleaving())
    res.sig = hist.sig(job.interleaving(), hist.cfg_sig(scn["cfg"]))

"""C11: distributed training equals single-process training on all the data."""
from .. import distsim, hist
from .c10 import probes

PROP = "C11"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 30000}
HASH_TWINS = {"quick": 40, "thorough": 1000}
TIME_UNIT = "scheduling decisions"
RULE = ("some scenarios are executed in two processes with different Python hash seeds, which must call the same collectives; "
        "as C10 (2-4 simulated ranks, every interleaving decided by the seed), and after every step the parameters, momenta and "
        "pre-conditioners of every rank are compared with the reference model trained by one process on the concatenation of "
        "the shards; non-trivial: a compared step with data that differs between ranks; distinct: interleaving and configuration")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler"],
              "stub": ["torch.distributed (simulated collectives)"],
              "oracle": ["refopt.RefOpt (dense, float64 and float32) on the concatenated data"]}
ASSUMPTIONS = ["equally sized shards", "all ranks back-propagate through the same layers in the same order",
               "every rank scales its loss as documented for its own mini-batch"]
PROBES = ["stalls", "low_precision", "skipped", "T>1", "broadcast", "rank_specific", "sum", "accumulated", "mean", "batch+sequence"]


hash_first, hash_second, hash_compare = distsim.hash_first, distsim.hash_second, distsim.hash_compare


def gen(r, tier):
    return distsim.gen_dist(r, max_size=4)


def run(scn, res):
    st = res.stats
    events = distsim.legal(scn)
    probes(scn, st, events)
    avg = scn["cfg"]["groups"][0]["hp"]["loss_average"]
    st["mean"] += avg == "batch"
    st["batch+sequence"] += avg == "batch+sequence"
    try:
        got, ovf, job = distsim.train(scn, res, events)
    except distsim.Split:
        return
    if distsim.mixed(ovf) is not None:  # (a legal scenario overflows on all ranks, but dead ReLUs may mask it)
        st["cut_off"] += 1
        return
    ref = distsim.Reference(scn)
    judge = hist.Judge(scn["cfg"], res)
    s = 0
    for ev in events:
        o = ovf.get(s + 1, {}).get(0, False)
        ref.act(ev, o)
        if ev["e"] != "step":
            continue
        st["skipped"] += o
        want = [r.obs() for r in ref.refs]
        for r in range(scn["size"]):
            what = f"step {s}, rank {r} of {scn['size']}"
            if not (judge.check_low(what, got[r][s], want[0], want[1:]) if scn["cfg"].get("low") else
                    judge.check(what, got[r][s], *want)):
                break
        s += 1
        if judge.stopped:
            break
    res.note_obs(got[0][-1] if got[0] else {})
    res.nontrivial = judge.compared > 0 and scn["shards"] == "own"
    res.note(job.interleaving())
    res.sig = hist.sig(job.interleaving(), hist.cfg_sig(scn["cfg"]))



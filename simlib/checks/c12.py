"""C12: distributed training never deadlocks and restarts consistently."""
from .. import compare, distsim, env, hist, trainer, twin
from .. import disk as D
from ..core import Crash, SutError, Violation
from ..job import Job
from ..rng import rng
from .c10 import KNOWN, probes

PROP = "C12"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
HASH_TWINS = {"quick": 40, "thorough": 1000}
TIME_UNIT = "scheduling decisions"
RULE = ("some scenarios are executed in two processes with different Python hash seeds, which must call the same collectives; "
        "2-4 simulated ranks with random interleavings, stalls and delayed completions must finish within a bounded number of "
        "scheduling decisions with matching collectives; then the run is repeated under another schedule in which ranks (or the "
        "machine) die at arbitrary operations, also repeatedly and while a checkpoint is written, and all ranks are restarted "
        "from the newest complete checkpoint one rank has written between steps; compared with the undisturbed run after every "
        "step; non-trivial: a step compared after a restart from a checkpoint; distinct: interleavings and configuration")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.save/load", "torch.amp.GradScaler"],
              "stub": ["torch.distributed (simulated collectives)", "disk"],
              "oracle": ["the undisturbed run", "matching of collectives", "bound on scheduling decisions"]}
ASSUMPTIONS = ["all ranks back-propagate through the same layers in the same order", "gradients are zeroed between steps",
               "checkpoints are written between steps"]
PROBES = ["stalls", "low_precision", "skipped", "T>1", "accumulated", "deaths", "machine", "repeated", "restored", "fell_back", "from_scratch",
          "subset_overflow"]


hash_first, hash_second, hash_compare = distsim.hash_first, distsim.hash_second, distsim.hash_compare


def gen(r, tier):
    scn = distsim.gen_dist(r, max_size=4, unequal=True)
    ev = []
    for e in scn["events"]:
        ev.append(e)
        if e["e"] == "step":
            ev.append({"e": "zero", "none": r.random() < 0.7, "via": "opt"})
            if r.random() < 0.7:
                ev.append({"e": "save", "proto": r.choice(["atomic", "plain"])})
    scn["events"] = ev
    if scn["scaler"] and r.random() < 0.15:
        for e in ev:
            if e["e"] == "fwd" and r.random() < 0.4:
                e["ovf"] = {"kind": "loss", "val": float("inf"), "ranks": [r.randrange(scn["size"])]}
    scn["saver"] = r.randrange(scn["size"])
    scn["faults"] = [{"rank": r.randrange(scn["size"]), "frac": float(f"{r.random():.3f}"), "machine": r.random() < 0.3,
                      "seed": r.randrange(10**9), "p_switch": r.choice([0.02, 0.1, 0.3, 1.0])}
                     for _ in range(r.choice([1, 1, 2, 3]))]
    scn["seed2"] = r.randrange(10**9)
    return scn


class Rounding:
    """What rounding (different reduction orders) may explain after the n-th step."""

    def __init__(self, scn, events):
        self.scn, self.events, self.tols = scn, events, None

    def tol(self, n):
        if self.scn["cfg"]["dtype"] == "f64":
            return 1e-6
        if self.tols is None:
            self.tols, est = [], 0.0
            ref = distsim.Reference(self.scn)
            for ev in self.events:
                if ev["e"] == "save":
                    continue
                ref.act(ev, self.scn.get("_ovf", {}).get(len(self.tols) + 1, {}).get(0, False))
                if ev["e"] == "step":
                    a, *bs = [x.obs() for x in ref.refs]
                    if self.scn["cfg"].get("low"):
                        est = max(est, *(compare.diff(b, a)[0] for b in bs))
                        self.tols.append(0.03 + 15 * est if est < 0.015 and compare.sane(a, 30) else None)
                        continue
                    b = bs[0]
                    est = max(est, compare.diff(b, a)[0])
                    self.tols.append(3e-4 + 100 * est if est < 3e-4 and compare.sane(a, 1e2) else None)
        return self.tols[n - 1] if 0 < n <= len(self.tols) else 3e-4 if not self.scn["cfg"].get("low") else 0.03


def legal(scn):
    saves = [e for e in scn["events"] if e["e"] == "save"]
    ok = {id(e) for e in distsim.legal({**scn, "events": [e for e in scn["events"] if e["e"] != "save"]})}
    out, clean = [], False
    for e in scn["events"]:
        if id(e) in ok:
            out.append(e)
            clean = e["e"] == "zero" and (clean or len(out) > 1 and out[-2]["e"] == "step")
        elif e in saves and clean:
            out.append(e)
    return out


def run(scn, res):
    st = res.stats
    events = legal(scn)
    probes(scn, st, events)
    plain = [e for e in events if e["e"] != "save"]
    size = scn["size"]
    # schedules, collectives, progress
    try:
        want, ovf, job = distsim.train(scn, res, plain)
    except distsim.Split:
        st["subset_overflow"] += 1
        res.known.append(KNOWN)
        return
    if distsim.mixed(ovf) is not None:
        st["subset_overflow"] += 1
        return
    st["skipped"] += sum(o.get(0, False) for o in ovf.values())
    scn["_ovf"] = ovf
    pair = twin.Pair(res, Rounding(scn, plain))
    total = list(job.n_ops)
    inter = [job.interleaving()]

    # deaths and restarts
    d = D.Disk(rng("disk", scn["seed2"]))
    steps_at = [0]
    for e in events:
        steps_at.append(steps_at[-1] + (e["e"] == "step"))
    wo = False if any(isinstance(g["hp"]["lr_cov"], dict) for g in scn["cfg"]["groups"]) else None
    job_op = [None]
    sizes, after, n_death, saves = {}, 0, 0, [0]

    def newest():
        """The launcher picks the newest readable checkpoint."""
        for name in sorted((n for n in d.ls() if n.startswith("ckpt")), reverse=True):
            blob = d.read(name)
            try:
                trainer.from_bytes(blob, wo)
            except SutError as e:
                if len(blob) == sizes[name]:
                    raise Violation("unreadable", f"complete checkpoint {name}: {str(e)[:300]}") from None
                st["fell_back"] += 1
                continue
            return blob
        return None

    def boot(k, blob):
        if blob is None:
            return 0
        c = trainer.from_bytes(blob, wo)
        k.t.restore(c["state"])
        n = steps_at[c["pos"]]
        if int(k.t.opt.steps) != n:
            raise Violation("steps", f"{k.t.opt.steps} steps after restoring a checkpoint of step {n}")
        return c["pos"]

    def save(k, ev, pos):
        saves[0] += 1
        blob = trainer.to_bytes({"pos": pos, "state": k.t.checkpoint()})
        name = f"ckpt-{saves[0]:04d}"
        sizes[name] = len(blob)
        target = "tmp" if ev["proto"] == "atomic" else name
        d.write(target, blob, chunk=512, on_chunk=lambda j, n: job_op[0]())
        d.fsync(target)
        if target == "tmp":
            d.rename("tmp", name)
        d.sync_dir()

    def attempt(f):
        nonlocal after
        env.reset_process()
        job = Job(size, f["seed"], p_switch=f["p_switch"], stalls=scn["stalls"])
        if "rank" in f:
            job.deaths[f["rank"]] = 1 + int(f["frac"] * total[f["rank"]])
        blob = newest()
        job_op[0] = lambda: job.on_op(scn["saver"])
        got, started = [{} for _ in range(size)], [0] * size

        def body(rank):
            k = distsim.Rank(scn, rank)
            pos = started[rank] = boot(k, blob)
            if pos:
                got[rank][steps_at[pos]] = k.obs()
            for i in range(pos, len(events)):
                if events[i]["e"] == "save":
                    if rank == scn["saver"]:
                        save(k, events[i], i + 1)
                    continue
                k.act(events[i])
                if events[i]["e"] == "step":
                    got[rank][steps_at[i + 1]] = k.obs()
            return True

        died = False
        try:
            job.run([body] * size)
        except Crash:
            died = True
        except SutError as e:
            while isinstance(e, SutError):
                e = e.__cause__
            if "died" not in str(e):
                raise
            died = True
        job.count(st)
        res.simtime += job.sched.now
        inter.append(job.interleaving())
        for rank in range(size):
            for n, o in sorted(got[rank].items()):
                if n and not pair.check(f"step {n}, rank {rank} after {n_death} deaths", o, want[rank][n - 1], n):
                    break
                after += n > 0 and n_death > 0 and started[rank] > 0
        st["restored"] += started[0] > 0
        st["from_scratch"] += n_death > 0 and started[0] == 0
        if not died and any(steps_at[-1] not in g for g in got) and steps_at[-1] and started[0] < len(events):
            raise Violation("restart", "a rank has not finished")
        return died

    for f in scn["faults"]:
        if not attempt(f):
            break
        n_death += 1
        st["deaths"] += 1
        if f["machine"]:
            st["machine"] += 1
            d.crash()
    else:
        attempt({"seed": scn["seed2"], "p_switch": scn["p_switch"]})
    st["repeated"] += n_death > 1
    scn.pop("_ovf")
    res.note_obs(want[0][-1] if want[0] else {})
    res.nontrivial = after > 0
    res.note(inter)
    res.sig = hist.sig(inter, hist.cfg_sig(scn["cfg"]))

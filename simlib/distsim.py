"""Distributed training: every rank runs the real optimizer on its own shard, in a simulated job."""
import torch
import torch.distributed as dist

from . import gen as G
from . import hist, nets, trainer
from .core import Result, Violation, sut
from .job import Job


def gen_dist(r, max_size=3, p_scaler=0.3, hp=True, unequal=False, empty=False):
    """Configuration, events and schedule of a distributed run."""
    size = r.choice([2, 2, 2, 3, max_size])
    cfg = G.gen_cfg(r, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 2, "ln": 0.0},
                    big=r.random() < 0.15, mix=0.3, ckpt=0.12)
    low = r.random() < 0.08
    if low:
        cfg = G.low_precision(r, G.gen_cfg(r, f64=False, n_groups=1, net_kw={"max_layers": 2, "ln": 0.0}))
        hp = cfg["groups"][0]["hp"]  # (statistics may exceed the range of float16)
        hp["preconditioner_dtype"] = ["bf16" if d == "f16" else d for d in hp["preconditioner_dtype"]]
    cfg["n"] = r.choice([1, 2, 3])
    scaled = r.random() < p_scaler and not low
    ev = hist.gen_passes(r, r.randint(2, 4), p_eval=0.15, p_multi=0.35, p_retain=0.05, p_fwdonly=0.1,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0 if scaled else 0.1)
    out = []
    layers = [l for g in cfg["groups"] for l in g["layers"]]
    p_ovf = r.choice([0.0, 0.2]) if scaled else 0.0
    for e in ev:
        if e["e"] == "eval":
            e["rank"] = r.choice([None, r.randrange(size)])
        if e["e"] == "fwd" and r.random() < p_ovf:  # on all ranks
            e["ovf"] = {"kind": "loss", "val": r.choice([float("inf"), float("nan")])}
        if e["e"] == "drop":
            e["rank"] = next(f.get("rank") for f in out if f["e"] == "fwd" and f["slot"] == e["slot"])
        if e["e"] == "fwd" and any(f["e"] == "drop" and f["slot"] == e["slot"] for f in ev):
            e["rank"] = r.choice([None, r.randrange(size)])
        out.append(e)
        if hp and e["e"] == "step" and r.random() < 0.1:
            k = r.choice(["lr", "damping", "weight_decay"])
            out.append({"e": "hp", "group": r.randrange(len(cfg["groups"])), "key": k,
                        "val": {"lr": G.u(r, 0.02, 0.2), "damping": G.u(r, 0.02, 0.5), "weight_decay": 0.1}[k]})
    size_ = nets.sizes(cfg["net"])
    each = unequal and (empty or r.random() < 0.3)
    # summed losses of no data are zero
    none = [0, 0, 0] if empty else []
    for e in out:
        if e["e"] == "fwd" and r.random() < 0.2:
            e["var"] = {"each": [r.choice([1, 2, 3, 4] + none) for _ in range(size)]} if each else {"n": r.choice([1, 2, 3, 4])}
            if size_ and r.random() < 0.5:
                e["var"]["size"] = [a + r.choice([0, 1, 2]) for a in size_]
    scaler = {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": r.choice([1, 2, 100])} if scaled else None
    sched = r.choice([None, None, {"kind": "exp", "g": 0.8}])
    return {"cfg": cfg, "events": out, "scaler": scaler, "sched": sched, "size": size, "seed": r.randrange(10**9),
            "p_switch": r.choice([0.02, 0.1, 0.3, 1.0]), "line": r.random() < 0.15, "shards": r.choice(["own", "own", "own", "same"]),
            "init": r.choice(["equal", "equal", "broadcast", "broadcast_late"]), "layers": layers,
            "stalls": gen_stalls(r, size)}


def gen_stalls(r, size):
    return [[r.randrange(size), r.randint(0, 40), r.choice([10, 200, 2000])] for _ in range(r.choice([0, 0, 1, 2]))]


def shard(cfg, dtype, ev, rank, size, mode="own"):
    """Rank-specific data of global batch ``ev["seed"]``."""
    var = dict(ev.get("var") or {})
    if "each" in var:  # ranks have shards of different sizes
        var["n"] = var["each"][rank % len(var["each"])]
    return nets.batch(cfg["net"], ev["seed"] * 16 + (rank if mode == "own" else 0), cfg["n"], dtype, cfg["xscale"], var)


def whole(cfg, dtype, ev, size, mode="own"):
    xy = [shard(cfg, dtype, ev, r, size, mode) for r in range(size)]
    return torch.cat([x for x, _ in xy]), torch.cat([y for _, y in xy])


class Rank:
    """One process of the job."""

    def __init__(self, scn, rank, groups=None):
        self.scn, self.rank, self.cfg = scn, rank, scn["cfg"]
        cfg = self.cfg
        if scn["init"] != "equal" and rank:
            cfg = {**cfg, "init": cfg["init"] + rank}
        model = trainer.build_model(cfg)
        if scn["init"] == "broadcast":
            self.broadcast(model)
        self.t = trainer.Trainer(self.cfg, model=model, scaler=scn["scaler"], sched=scn["sched"], groups=groups)
        if scn["init"] == "broadcast_late":
            self.broadcast(model)
        self.t.quiet = True  # the context managers of `warnings` are not for threads
        self.overflows, self.seen = [], {}

    @staticmethod
    def broadcast(model):
        for p in model.parameters():
            dist.broadcast(p.data, src=0)

    def act(self, ev):
        e, t, scn = ev["e"], self.t, self.scn
        if ev.get("rank") is not None and ev["rank"] != self.rank:
            return
        if e == "fwd":
            xy = shard(self.cfg, t.dtype, ev, self.rank, scn["size"], scn["shards"])
            ovf = ev.get("ovf")
            if ovf and ovf.get("ranks") is not None and self.rank not in ovf["ranks"]:
                ovf = None
            t.forward(ev["slot"], ev["seed"], self.cfg["n"], ev.get("flags"), ev.get("mult", 1.0), xy=xy, ovf=ovf,
                      evalmode=ev.get("evalmode", False))
        elif e == "hp":
            t.opt.param_groups[ev["group"]][ev["key"]] = ev["val"]
        else:
            if e == "step" and t.scaler is not None:
                self.overflows.append(t.grads_overflow())
                self.seen.setdefault(len(self.overflows), {})[self.rank] = self.overflows[-1]
            hist.apply(t, ev, self.cfg["n"])

    @sut
    def obs(self):
        return self.t.obs()


class Reference:
    """One process that trains on all the data."""

    def __init__(self, scn):
        self.scn, cfg = scn, scn["cfg"]
        self.cfg = cfg
        self.t = trainer.Trainer(cfg)  # initial values, and the learning rates a scheduler produces
        if scn["sched"]:
            self.t.sched = trainer.make_sched(scn["sched"], self.t.opt)
        self.refs = [trainer.RefTrainer(cfg, self.t)]
        if cfg.get("low"):
            self.refs += [trainer.RefTrainer(cfg, self.t, noise=i) for i in range(3)]
        elif cfg["dtype"] != "f64":
            self.refs.append(trainer.RefTrainer(cfg, self.t, dtype=torch.float32))

    def act(self, ev, overflow=False):
        e, cfg = ev["e"], self.cfg
        if e == "eval" or e == "fwd" and ev.get("drop"):
            return
        for ref in self.refs:
            if e == "fwd":
                xy = whole(cfg, trainer.DT[cfg["dtype"]], ev, self.scn["size"], self.scn["shards"])
                ref.forward(ev["slot"], ev["seed"], cfg["n"], ev.get("flags"), ev.get("mult", 1.0), xy=xy, ovf=ev.get("ovf"))
            elif e == "hp":
                ref.ref.cfgs[ev["group"]][ev["key"]] = ev["val"]
            else:
                ref.overflow = overflow
                hist.apply(ref, ev, cfg["n"])
        if e == "hp":
            self.t.opt.param_groups[ev["group"]][ev["key"]] = ev["val"]
        if e == "step" and self.t.sched is not None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.t.sched.step()
            for ref in self.refs:
                for g, c in zip(self.t.opt.param_groups, ref.ref.cfgs):
                    c["lr"] = float(g["lr"])


def legal(scn):
    """Events that are legal on every rank."""
    g = hist.Guard(bool(scn["scaler"]))
    out = [e for e in scn["events"] if g.ok(e)]
    drops = {e["slot"] for e in out if e["e"] == "drop"}
    for e in out:
        if e["e"] == "fwd" and e["slot"] not in drops and e.get("rank") is not None:
            raise AssertionError("a pass on a subset of ranks must be dropped")
    return out


class Split(Exception):
    """Known limitation: only some of the ranks skip a step."""


def train(scn, res, events, on_step=None, job=None, start=None):
    """Run the job; returns per rank the observations after every step."""
    size = scn["size"]
    job = job or Job(size, scn["seed"], p_switch=scn["p_switch"], line=scn["line"], stalls=scn["stalls"])
    ovf = {}

    def body(rank):
        k = Rank(scn, rank)
        k.seen = ovf
        got = []
        for ev in events:
            k.act(ev)
            if ev["e"] == "step":
                got.append(k.obs())
        return got

    try:
        got = job.run([body] * size)
    except Violation:
        if any(len(set(o.values())) > 1 for o in ovf.values()):
            raise Split from None
        raise
    finally:
        job.count(res.stats)
        res.simtime += job.sched.now
    return got, ovf, job


def hash_first(scn):
    """The collectives of every rank."""
    res = Result()
    job = Job(scn["size"], scn["seed"], p_switch=scn["p_switch"])
    job.world.prints = {}
    try:
        train(scn, res, legal({**scn, "events": [e for e in scn["events"] if e["e"] != "save"]}), job=job)
    except Split:
        return None
    return job.world.prints


def hash_second(scn, got):
    return hash_first(scn)


def hash_compare(scn, a, b):
    """Ranks with different hash seeds call the same collectives on the same quantities."""
    if a is None or b is None:
        return
    for r in a:
        if len(a[r]) != len(b[r]):
            raise Violation("collectives", f"rank {r} calls {len(b[r])} instead of {len(a[r])} collectives")
        for i, (x, y) in enumerate(zip(a[r], b[r])):
            if not all(abs(v) < 1e4 for v in (x[3], y[3])):  # overflows, diverges
                break
            if x[:3] != y[:3] or abs(x[3] - y[3]) > 1e-2 * max(abs(x[3]), abs(y[3])) + 1e-6:
                raise Violation("collectives", f"rank {r}'s collective #{i} is {y} instead of {x}")


def mixed(ovf):
    """First step (from 1) that only some ranks skip, or None."""
    return next((n for n, o in sorted(ovf.items()) if len(set(o.values())) > 1), None)

"""C09: loading a checkpoint copies it and fully replaces the state."""
import copy
import json

import torch

from .. import events as E
from .. import faults, hist, trainer, twin
from .. import gen as G
from ..core import SutError, Violation

PROP = "C09"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("up to three live trainers; random actions: training, evaluation, in-memory snapshots, loading the same dictionary "
        "repeatedly into live trainers (also after an injected failure inside forward, backward or step, or half way through "
        "an accumulation), forks into new trainers, hand-over of a live state_dict() to another trainer; every observation is "
        "compared with a fresh run of the same logical history, every loaded dictionary is fingerprinted; non-trivial: two "
        "loads and a step after the second; distinct: network, qualitative configuration, action sequence")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.optim.Optimizer.load_state_dict", "torch.amp.GradScaler",
                       "torch.optim.lr_scheduler"], "stub": [],
              "oracle": ["fresh runs of the logical histories (real code), bit by bit; rounding judged by refopt.RefOpt"]}
ASSUMPTIONS = ["a snapshot of a live optimizer is a deep copy or a torch.save of state_dict() (it is a live view, as in PyTorch)",
               "model, gradients, scaler and scheduler are restored along with the optimizer",
               "after a failed scaler.step the user continues with a new GradScaler loaded from the checkpoint"]
PROBES = ["load_live", "load_same_twice", "load_after_fwd_failure", "load_after_bwd_failure", "load_after_step_failure",
          "load_mid_accumulation", "snap_mid_accumulation", "fork", "direct", "rollback_hp", "bytes", "fault_oom",
          "fault_interrupt"]


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.1, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 2})
    scaler = {"init_scale": 2.0 ** r.randint(1, 10), "growth_interval": r.choice([1, 2])} if r.random() < 0.3 else None
    cfg["init_grad_scale"] = r.choice([1.0, scaler["init_scale"]]) if scaler else 1.0
    sched = r.choice([None, None, None, {"kind": "exp", "g": 0.8}, {"kind": "step", "n": 2, "g": 0.5}])
    acts = []
    n = r.randint(10, 30)
    for i in range(n):
        t = r.randrange(3)
        a = r.choice(["iter"] * 6 + ["pass"] * 3 + ["step"] * 3 + ["zero", "eval", "fwdonly", "snap", "snap", "snap", "load",
                     "load", "load", "load", "fork", "fork", "direct", "direct", "fail", "fail", "hp"])
        d = {"a": a, "t": t, "seed": r.randrange(10**6)}
        if a == "snap":
            d["how"] = r.choice(["deepcopy", "deepcopy", "bytes"])
        elif a in ("load", "fork"):
            d["k"] = r.randrange(100)
        elif a == "direct":
            d["from"] = r.randrange(3)
        elif a == "fail":
            d.update(where=r.choice(["fwd", "bwd", "step", "step"]), frac=float(f"{r.random():.3f}"),
                     unit=r.choice(["op", "op", "line"]), exc=r.choice(["oom", "interrupt", "error"]), then=r.randrange(100))
        elif a == "hp":
            k = r.choice(["lr", "weight_decay", "damping", "T", "momentum"])
            d.update(group=r.randrange(len(cfg["groups"])), key=k,
                     val={"lr": G.u(r, 0.02, 0.2), "weight_decay": 0.1, "damping": G.u(r, 0.02, 0.5),
                          "T": r.choice([1, 2, 3]), "momentum": r.choice([0.0, 0.6])}[k])
        elif a == "iter" and scaler and r.random() < 0.15:
            d["ovf"] = {"kind": "loss", "val": float("inf")}
        acts.append(d)
    return {"cfg": cfg, "events": acts, "scaler": scaler, "sched": sched}


def fingerprint(x):
    """Everything reachable, by value."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), x.requires_grad, x.detach().to(torch.float64).contiguous().numpy().tobytes())
    if isinstance(x, dict):
        return ("D", [(repr(k), fingerprint(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fingerprint(v) for v in x])
    if hasattr(x, "named_tensors"):
        return (type(x).__name__, [(n, fingerprint(t)) for n, t in x.named_tensors()])
    if isinstance(x, trainer.LrCov):
        return ("L", x.kind, x.a, x.n)
    return repr(x)


class Live:
    def __init__(self, tr, history=()):
        self.tr, self.history, self.broken = tr, list(history), None
        self.have, self.spent, self.n = False, False, 0

    def logical(self):
        return {"history": list(self.history), "have": self.have, "spent": self.spent, "n": self.n}

    def take(self, l):
        self.history, self.have, self.spent, self.n = list(l["history"]), l["have"], l["spent"], l["n"]
        self.broken = None


def do(sim, ev):
    if ev["e"] == "hp":
        E.hp(sim, ev)
    else:
        hist.apply(sim.sys, ev, sim.cfg["n"])


class Shim:
    def __init__(self, sys, cfg, res):
        self.sys, self.refs, self.cfg, self.res = sys, [], cfg, res


def observe(tr):
    o = tr.obs()
    o["steps"] = torch.tensor([float(tr.opt.steps)], dtype=torch.float64)
    for i, g in enumerate(tr.opt.param_groups):
        for k in ("lr", "momentum", "damping", "alpha1", "weight_decay", "T"):
            o[f"group{i}.{k}"] = torch.tensor([float(g[k])], dtype=torch.float64)
    return o


def run(scn, res):
    cfg, st = scn["cfg"], res.stats
    silent = type(res)()

    def new():
        return trainer.Trainer(cfg, scaler=scn["scaler"], sched=scn["sched"])

    def events_of(a):
        s = f"x{a['seed']}"
        fwd = {"e": "fwd", "slot": s, "seed": a["seed"], "mult": 1.0}
        if "ovf" in a:
            fwd["ovf"] = a["ovf"]
        return fwd, {"e": "bwd", "slot": s}

    lives, snaps, points = [Live(new())], [], []
    prints, loads, used = [], 0, {}
    after_second = 0

    def restore(live, snap, kind):
        nonlocal loads
        t = live.tr
        t.slots.clear()
        if t.scaler is not None:
            t.scaler = torch.amp.GradScaler(device="cpu", **scn["scaler"])
            t.scaler.scale(torch.ones(()))
        st[kind] += 1
        if live.broken:
            st[f"load_after_{live.broken}_failure"] += 1
        elif live.have and kind == "load_live":
            st["load_mid_accumulation"] += 1
        st["rollback_hp"] += any(e["e"] == "hp" for e in live.history[len(snap["logical"]["history"]):])
        before = fingerprint(snap["state"]["opt"])
        t.restore(snap["state"])
        if fingerprint(snap["state"]["opt"]) != before:
            raise Violation("dictionary changed", f"load_state_dict changed the given dictionary ({kind})")
        live.take(snap["logical"])
        loads += 1
        used[id(snap)] = used.get(id(snap), 0) + 1
        st["load_same_twice"] += used[id(snap)] == 2
        points.append((live.history[:], observe(t), live.n, f"after {kind}"))

    for i, a in enumerate(scn["events"]):
        live = lives[a["t"] % len(lives)]
        kind = a["a"]
        sim = Shim(live.tr, cfg, res)
        todo = []
        if kind == "load" and snaps:
            restore(live, snaps[a["k"] % len(snaps)], "load_live")
            continue
        if kind == "fork" and snaps and len(lives) < 3:
            l = Live(new())
            restore(l, snaps[a["k"] % len(snaps)], "fork")
            lives.append(l)
            continue
        if live.broken:
            continue
        if kind == "direct":
            src = lives[a["from"] % len(lives)]
            if src is live or src.broken:
                continue
            restore(live, {"state": src.tr.checkpoint(with_grads=True), "logical": src.logical()}, "direct")
            continue
        if kind == "snap":
            s = live.tr.checkpoint(with_grads=True)
            if a["how"] == "deepcopy":
                s = copy.deepcopy(s)
            else:
                st["bytes"] += 1
                s = trainer.from_bytes(trainer.to_bytes(s), E.weights_only_ok(live.tr.opt))
            st["snap_mid_accumulation"] += live.have and not live.spent
            snaps.append({"state": s, "logical": live.logical()})
            prints.append((s["opt"], fingerprint(s["opt"])))
            continue
        if kind == "fail":
            fwd, bwd = events_of(a)
            seq = {"fwd": [], "bwd": [fwd], "step": [fwd, bwd]}[a["where"]]
            last = {"fwd": fwd, "bwd": bwd, "step": {"e": "step"}}[a["where"]]
            if a["where"] == "step" and live.have:
                seq = []
            if a["where"] != "fwd" and live.spent:
                continue
            if not snaps:
                continue  # nothing to roll back to
            for e in seq:
                do(sim, e)
            n = cost(scn, cfg, a["unit"])[a["where"]]
            at = min(int(a["frac"] * n), n - 1)
            try:
                with (faults.OpCounter if a["unit"] == "op" else faults.LineFault)(at, a["exc"]):
                    do(sim, last)
            except BaseException as e:
                while isinstance(e, SutError):
                    e = e.__cause__
                if not faults.is_injected(e):
                    raise
                st["fault_" + a["exc"]] += 1
                st[f"fault_{a['where']}_{a['unit']}"] += 1
            live.broken = a["where"]
            live.tr.slots.clear()
            if a["then"] < 70:
                restore(live, snaps[a["then"] % len(snaps)], "load_live")
            continue
        if kind in ("iter", "pass") and not (kind == "pass" and live.spent):
            fwd, bwd = events_of(a)
            todo = [fwd, bwd]
            if kind == "iter":
                todo = [{"e": "zero", "none": bool(a["seed"] % 2), "via": "opt"}] + todo + [{"e": "step"}]
        elif kind == "step" and live.have and not live.spent:
            todo = [{"e": "step"}]
        elif kind == "zero":
            todo = [{"e": "zero", "none": bool(a["seed"] % 2), "via": "opt"}]
        elif kind == "eval":
            todo = [{"e": "eval", "seed": a["seed"], "n": 2, "mode": ["nograd", "fwdonly", "infer"][a["seed"] % 3]}]
        elif kind == "fwdonly":
            fwd, _ = events_of(a)
            todo = [fwd, {"e": "drop", "slot": fwd["slot"]}]
        elif kind == "hp":
            todo = [{"e": "hp", "group": a["group"], "key": a["key"], "val": a["val"]}]
        for e in todo:
            do(sim, e)
            live.history.append(e)
            if e["e"] == "zero":
                live.have = live.spent = False
            elif e["e"] == "bwd":
                live.have = True
            elif e["e"] == "step":
                live.n += 1
                live.spent = bool(scn["scaler"])
                res.simtime += 1
                after_second += loads >= 2
                o = observe(live.tr)
                res.note_obs(o)
                points.append((live.history[:], o, live.n, f"action {i}, step {live.n}"))
    for s, f in prints:
        if fingerprint(s) != f:
            raise Violation("dictionary changed", "training an optimizer changed a dictionary it was restored from")

    # fresh runs of the logical histories
    enc = [json.dumps(h, sort_keys=True) for h, *_ in points]
    todo = sorted(set(enc), key=len, reverse=True)
    done = {}
    for key in todo:
        if key in done:
            continue
        h = json.loads(key)
        sim = Shim(new(), cfg, silent)
        done[json.dumps([], sort_keys=True)] = observe(sim.sys)
        need = {len(json.loads(k)): k for k in todo if k[:-1] == key[:len(k) - 1]}
        for j, e in enumerate(h):
            do(sim, e)
            if j + 1 in need:
                done[need[j + 1]] = observe(sim.sys)
    for (h, o, n, what), k in zip(points, enc):
        if o.keys() == done[k].keys() and all(twin.same(o[x], done[k][x]) for x in o):
            continue
        legal = twin.legalise(h, bool(scn["scaler"]))
        p = twin.Pair(res, twin.Rounding(cfg, legal, scn["scaler"], scn["sched"]))
        p.check(what, o, done[k], n)
    st["compared"] += len(points)
    st["fresh_runs"] += len(todo)
    res.nontrivial = loads >= 2 and after_second >= 1
    res.sig = hist.sig(hist.cfg_sig(cfg), [(a["a"], a["t"], a.get("where"), a.get("k")) for a in scn["events"]])


_cost = {}


def cost(scn, cfg, unit):
    key = (json.dumps(cfg, sort_keys=True, default=str), bool(scn["scaler"]), unit)
    if key not in _cost:
        _cost.clear()
        t = trainer.Trainer(cfg, scaler=scn["scaler"])
        mk = faults.OpCounter if unit == "op" else faults.LineFault
        with mk() as f:
            t.forward("p", 0, cfg["n"])
        with mk() as b:
            t.backward("p")
        with mk() as s:
            t.step()
        _cost[key] = {"fwd": max(f.n, 1), "bwd": max(b.n, 1), "step": max(s.n, 1)}
    return _cost[key]

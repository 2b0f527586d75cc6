"""Events beyond plain training: restarts, abandoned passes, hyper-parameter changes, storage changes."""
import torch

from . import faults, nets, trainer
from .core import SutError, Violation


def install(sim):
    for k, f in EXT.items():
        sim.ext.setdefault(k, lambda ev, f=f: f(sim, ev))


# ------------------------------------------------------------------ restart
def restart(sim, ev):
    """Save, throw everything away, rebuild (possibly with other constructor hyper-parameters), load."""
    wo = weights_only_ok(sim.sys.opt)
    sim.sys = reborn(sim, trainer.to_bytes(sim.sys.checkpoint(with_grads=True)), sim.sys.slots if ev.get("keep_slots")
                     else {}, ev, wo)
    sim.res.stats["restart"] += 1


def weights_only_ok(opt):
    """A schedule is a user-defined object, which torch.load does not read by default."""
    return None if not any(callable(g["lr_cov"]) for g in opt.param_groups) else False


def reborn(sim, data, slots, ev=None, weights_only=None):
    cfg = sim.cfg
    t = trainer.Trainer(cfg, scaler=sim.scaler, sched=sim.sched, groups=(ev or {}).get("groups"))
    t.restore(trainer.from_bytes(data, weights_only))
    t.manual = sim.sys.manual
    for p, q in zip(t.model.parameters(), sim.sys.model.parameters()):
        p.requires_grad_(q.requires_grad)
    return t


# ------------------------------------------------------------------ abandoned passes
def count_ops(sim, unit="op"):
    """Operations (or executed lines of singd) in a fresh forward and backward pass."""
    c = sim.__dict__.setdefault("_counts", {})
    if unit not in c:
        t = trainer.Trainer(sim.cfg, scaler=sim.scaler)
        mk = faults.OpCounter if unit == "op" else faults.LineFault
        with mk() as f:
            t.forward("p", 0, sim.cfg["n"])
        with mk() as b:
            t.backward("p")
        c[unit] = {"fwd": f.n, "bwd": b.n}
    return c[unit]


def region(ev, n):
    at = min(int(ev["frac"] * n), max(n - 1, 0))
    mk = faults.OpCounter if ev["unit"] == "op" else faults.LineFault
    return mk(at, ev["exc"])


def abandon(sim, ev):
    """A pass that dies at an operation, or is thrown away; the user is expected to call zero_grad next."""
    st, t, cfg = sim.res.stats, sim.sys, sim.cfg
    k = ev["kind"]
    flags = ev.get("flags")
    if k == "fault":
        n = count_ops(sim, ev["unit"])[ev["where"]]
        try:
            if ev["where"] == "fwd":
                with region(ev, n) as r:
                    t.forward("abandoned", ev["seed"], cfg["n"], flags)
            else:
                t.forward("abandoned", ev["seed"], cfg["n"], flags)
                with region(ev, n) as r:
                    t.backward("abandoned")
        except BaseException as e:
            while isinstance(e, SutError):
                e = e.__cause__
            if not faults.is_injected(e):
                raise
            st[f"fault_{ev['where']}_{ev['unit']}"] += 1
            st["fault_" + ev["exc"]] += 1
        else:
            st["fault_not_reached"] += 1
    elif k == "discard":
        t.forward("abandoned", ev["seed"], cfg["n"], flags, ev["mult"])
        t.backward("abandoned", retain=ev.get("retain", False))
        st["abandon_discard"] += 1
    elif k == "nonfinite":
        t.forward("abandoned", ev["seed"], cfg["n"], flags, ovf={"kind": "loss", "val": float(ev["val"])})
        t.backward("abandoned")
        st["abandon_nonfinite"] += 1
    elif k == "fwdonly":
        t.forward("abandoned", ev["seed"], cfg["n"], flags)
        st["abandon_fwdonly"] += 1
    else:
        raise KeyError(k)
    t.slots.pop("abandoned", None)


def gen_abandon(r):
    k = r.choice(["fault", "fault", "fault", "fault", "discard", "discard", "nonfinite", "fwdonly"])
    ev = {"e": "abandon", "kind": k, "seed": r.randrange(10**6)}
    if k == "fault":
        unit = r.choice(["op", "op", "line"])
        ev.update(where=r.choice(["fwd", "bwd", "bwd"]), frac=float(f"{r.random():.3f}"), unit=unit,
                  exc=r.choice(["oom", "interrupt", "error"]) if unit == "op" else "interrupt")
    if k == "discard":
        ev["mult"] = r.choice([1.0, 3.0, 10.0])
        ev["retain"] = r.random() < 0.2
    if k == "nonfinite":
        ev["val"] = r.choice(["inf", "nan", "-inf"])
    return ev


# ------------------------------------------------------------------ hyper-parameters
def hp(sim, ev):
    v = trainer.hp_value(ev["key"], ev["val"])
    sim.sys.opt.param_groups[ev["group"]][ev["key"]] = v
    for ref in sim.refs:
        ref.ref.cfgs[ev["group"]][ev["key"]] = v
    sim.res.stats["hp_" + ev["key"]] += 1


# ------------------------------------------------------------------ manual gradient scale
def scale(sim, ev):
    sim.sys.manual = ev["s"]


def update_scale(sim, ev):
    """GradScaler.update(new_scale)."""
    if sim.sys.scaler._scale is not None:  # else, torch refuses
        sim.sys.scaler.update(ev["s"])


EXT = {"restart": restart, "abandon": abandon, "hp": hp, "scale": scale, "update_scale": update_scale,
       "discard": lambda sim, ev: None}


# ------------------------------------------------------------------ storage of parameters
def storage(sim, ev):
    """Values stay, storage changes."""
    m, k = sim.sys.model, ev["kind"]
    ps = list(m.parameters())
    pick = [p for i, p in enumerate(ps) if (ev["mask"] >> (i % 30)) & 1] or ps
    with torch.no_grad():
        if k == "realloc":
            for p in pick:
                p.data = p.data.clone()
        elif k == "layout":
            for p in pick:
                if p.ndim == 2:
                    p.data = p.data.t().contiguous().t()
                elif p.ndim == 4:
                    p.data = p.data.contiguous(memory_format=torch.channels_last)
        elif k == "contiguous":
            for p in pick:
                p.data = p.data.contiguous()
        elif k == "swap":
            done = set()
            for p in ps:
                q = next((q for q in ps if q is not p and q.shape == p.shape and id(q) not in done), None)
                if q is None or id(p) in done:
                    continue
                done |= {id(p), id(q)}
                a, b = p.data, q.data
                va, vb = a.clone(), b.clone()
                p.data, q.data = b, a
                p.data.copy_(va)
                q.data.copy_(vb)
                sim.res.stats["storage_swapped_pair"] += 1
        elif k == "flat":
            # one flat buffer, parameters in a new order each time: addresses are re-used by other parameters
            buf = sim.__dict__.setdefault("_flat", torch.empty(sum(p.numel() for p in ps), dtype=ps[0].dtype))
            vals = [p.data.clone() for p in ps]
            order = sorted(range(len(ps)), key=lambda i: (i * ev["mask"] + 7919 * i * i) % 10007)
            at = 0
            for i in order:
                n = ps[i].numel()
                ps[i].data = buf[at:at + n].view(ps[i].shape)
                at += n
            for p, v in zip(ps, vals):
                p.data.copy_(v)
        elif k == "free":
            # released between uses, re-allocated in another order (as sharding and off-loading do)
            vals = [p.data.clone().numpy().copy() for p in ps]
            shapes = [p.shape for p in ps]
            for p in ps:
                p.data = torch.empty(0, dtype=p.dtype)
            for i in reversed(range(len(ps))):
                ps[i].data = torch.from_numpy(vals[i]).clone().reshape(shapes[i])
        elif k == "vector":
            torch.nn.utils.vector_to_parameters(torch.cat([p.data.reshape(-1) for p in ps]), ps)
        elif k == "average":
            # swap averaged weights in, evaluate, swap the training weights back
            keep = [p.data for p in ps]
            for p in ps:
                p.data = p.data * 0.5
            x, _ = sim.sys.data(ev["mask"], 2)
            m(x)
            for p, d in zip(ps, keep):
                p.data = d
        else:
            raise KeyError(k)
    sim.res.stats["storage_" + k] += 1


def setval(sim, ev):
    """New values by assignment of .data; the reference copies them in place."""
    g = torch.Generator().manual_seed(ev["seed"])
    with torch.no_grad():
        for k, p in sim.sys.model.named_parameters():
            d = (torch.randn(p.shape, generator=g, dtype=torch.float64) * 0.1).to(p.dtype)
            new = (p.data * 0.9 + d).clone()
            p.data = new
            for ref in sim.refs:
                ref.ref.p[k] = new.to(ref.ref.dtype).clone()
    sim.res.stats["storage_set"] += 1


# ------------------------------------------------------------------ freezing layers
def freeze(sim, ev):
    """requires_grad of layers ("l1") or single parameters ("l1.bias"); gradients were set to None before."""
    for l in ev["layers"]:
        l, _, only = l.partition(".")
        for n, p in sim.sys.model.layers[l].named_parameters():
            if only and n != only:
                continue
            p.requires_grad_(not ev["on"])
            for ref in sim.refs:
                (ref.ref.frozen.add if ev["on"] else ref.ref.frozen.discard)(f"layers.{l}.{n}")
    sim.res.stats["freeze" if ev["on"] else "unfreeze"] += 1


EXT.update(freeze=freeze, storage=storage, setval=setval)

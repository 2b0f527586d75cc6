"""C02: the pre-conditioner is refreshed at exactly every T-th step."""
from .. import compare
from .. import gen as G
from .. import hist
from ..core import Violation

PROP = "C02"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("histories with update intervals T = 1..7, in some long runs up to 64 (different per group), evaluation / abandoned passes, overflow-skipped "
        "steps and restarts; pre-conditioners and momenta are read after every event; non-trivial: at least one refresh "
        "and one step without refresh; distinct: network, qualitative configuration, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.amp.GradScaler", "torch.save/load"], "stub": [],
              "oracle": ["refopt.RefOpt", "exact equality outside of refreshes"]}
ASSUMPTIONS = ["backward() of a forward pass happens before the next step()"]
PROBES = ["refresh", "step_without_refresh", "skipped_step", "restart", "ev_eval", "abandon_discard", "scheduled_lr_cov", "late_refresh"]


def gen(r, tier):
    T = lambda: r.choice([1, 2, 2, 3, 3, 4, 5, 7])  # noqa: E731
    scaler = r.random() < 0.4
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.1, n_groups=r.choice([1, 2, 3]), net_kw={"max_layers": 3, "ln": 0.0 if scaler else 0.1})
    for g in cfg["groups"]:
        g["hp"]["T"] = T()
        g["hp"]["lr"] *= 0.5
        if r.random() < 0.4:
            g["hp"]["lr_cov"] = {"kind": r.choice(["ramp", "cycle"]), "a": G.u(r, 0.05, 0.35), "n": r.choice([2, 3, 5])}
    ev = hist.gen_passes(r, r.randint(5, 14), p_eval=0.15, p_multi=0.2, p_retain=0.03, p_fwdonly=0.1)
    ev = sprinkle(r, hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg), scaler)
    out = {"cfg": cfg, "events": ev,
           "scaler": {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": r.choice([1, 2, 5, 100])} if scaler
           else None}
    return long_run(r) if r.random() < 0.02 else out


def long_run(r):
    """Long intervals: whatever is kept from one refresh to the next is kept for many steps."""
    scaler = r.random() < 0.6
    cfg = G.gen_cfg(r, n_groups=r.choice([1, 2]), net_kw={"max_layers": 2, "ln": 0.0}, big=False)
    for g in cfg["groups"]:
        g["hp"]["T"] = r.choice([9, 11, 16, 20, 25, 33, 50, 64])
        g["hp"]["lr"] = G.u(r, 0.001, 0.01)
        g["hp"]["lr_cov"] = {"kind": "ramp", "a": G.u(r, 0.05, 0.2), "n": 40} if r.random() < 0.3 else G.u(r, 0.02, 0.2)
    n = max(g["hp"]["T"] for g in cfg["groups"])
    ev = hist.gen_passes(r, r.randint(n + 2, 2 * n + 5), p_eval=0.02, p_multi=0.05, p_retain=0.0, p_fwdonly=0.02)
    return {"cfg": cfg, "events": sprinkle(r, ev, scaler, p_ovf=0.03, p_restart=0.02, p_discard=0.02),
            "scaler": {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": r.choice([4, 5, 9])} if scaler else None}


def sprinkle(r, ev, scaler, p_ovf=0.2, p_restart=0.06, p_discard=0.12, layers=None):
    """Add overflow, restart and discarded passes to a history."""
    out = []
    for e in ev:
        if scaler and e["e"] == "fwd" and r.random() < p_ovf:
            e["ovf"] = {"kind": "loss", "val": r.choice([float("inf"), float("nan")])}
        if e["e"] == "fwd" and r.random() < p_discard:
            for _ in range(r.randint(1, 2)):
                out.append({"e": "abandon", "kind": "discard", "seed": r.randrange(10**6), "mult": 2.0})
            out.append({"e": "zero", "none": True, "via": "opt"})
        out.append(e)
        if e["e"] == "step" and r.random() < p_restart:
            out.append({"e": "restart"})
    return out


def run(scn, res):
    cfg = scn["cfg"]
    sim = hist.Sim(cfg, res, scaler=scn.get("scaler"), compare_every=True)

    def pre(o):
        return {k: v for k, v in o.items() if k[:2] in ("K.", "C.") or k[:3] in ("mK.", "mC.")}

    refreshed = skipped = plain = 0
    last = pre(sim.sys.obs())
    n_ref = 0
    for i, ev in enumerate(scn["events"]):
        if not sim.guard.ok(ev):
            continue
        if not sim.one(i, ev):
            break
        now = pre(sim.sys.obs())
        new = sim.refs[0].ref.refreshes[n_ref:]
        n_ref = len(sim.refs[0].ref.refreshes)
        touched = {l for _, l in new}
        for k in now:
            l = k.split(".", 1)[1]
            if l not in touched and k in last:
                d, _ = compare.diff({k: now[k]}, {k: last[k]})
                if d > 1e-12:
                    raise Violation("changed", f"{k} changed by {d:.3g} in event {i} ({ev['e']}), no refresh is due")
        last = now
        if ev["e"] == "step":
            if sim.refs[0].overflow:
                skipped += 1
            elif touched:
                refreshed += 1
            else:
                plain += 1
    res.stats["late_refresh"] += any(t > 8 for t, _ in sim.refs[0].ref.refreshes) and max(g["hp"]["T"] for g in cfg["groups"]) > 8
    res.stats["refresh"] += refreshed
    res.stats["skipped_step"] += skipped
    res.stats["step_without_refresh"] += plain
    res.stats["scheduled_lr_cov"] += any(isinstance(g["hp"]["lr_cov"], dict) for g in cfg["groups"])
    res.nontrivial = refreshed > 0 and plain + skipped > 0
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]))

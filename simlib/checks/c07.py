"""C07: gradient scaling never changes the result."""
from .. import gen as G
from .. import hist

PROP = "C07"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("histories with a sequence of gradient scales (powers of two and others; growing, backing off after injected "
        "overflows, set explicitly, arbitrary jumps), supplied by a real GradScaler or by set_current_grad_scale, with a "
        "matching or mismatched init_grad_scale, gradient clipping (with unscale_), restarts in between; compared with the unscaled reference; non-trivial: "
        ">= 2 different scales and >= 2 refreshes; distinct: network, qualitative configuration, event kinds, scale "
        "source")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.amp.GradScaler"], "stub": [],
              "oracle": ["refopt.RefOpt without scaling"]}
ASSUMPTIONS = ["all backward passes of a step use the same scale", "gradients are zeroed between steps",
               "users who un-scale gradients tell the optimizer the scale (set_current_grad_scale)"]
PROBES = ["src_scaler", "src_manual", "init_mismatch", "init_match", "skipped", "update_scale", "restart", "scale_changed",
          "non_power_of_two", "T>1", "clipped", "low_precision"]


def any_scale(r, near=None):
    if near is not None:  # float16: what the gradients times the scale can be stored in
        return min(max(near * r.choice([0.25, 0.5, 1.0, 2.0, 3.0]), 0.25), 256.0)
    return r.choice([2.0 ** r.randint(-4, 14), 2.0 ** r.randint(-4, 14), G.u(r, 0.1, 3e4), 1.0])


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3, "ln": 0.0})
    src = r.choice(["scaler", "manual"])
    first = any_scale(r)
    cfg["init_grad_scale"] = r.choice([first, 1.0, any_scale(r)])
    low = r.random() < 0.12
    if low:
        cfg = G.low_precision(r, G.gen_cfg(r, f64=False, n_groups=1, net_kw={"max_layers": 2, "ln": 0.0}))
        cfg["xscale"], cfg["scale"] = min(cfg["xscale"], 0.7), min(cfg["scale"], 1.0)
        first = 2.0 ** r.randint(0, 8)
        cfg["init_grad_scale"] = first * r.choice([1.0, 1.0, 0.5, 2.0])
    last = first
    ev = hist.gen_passes(r, r.randint(4, 10), p_eval=0.1, p_multi=0.3, p_retain=0.05, p_fwdonly=0.05,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0, via_model=r.choice([0.0, 0.5]), p_clip=r.choice([0.0, 0.0, 0.4]))
    if not low:
        hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    out = []
    boundary = True
    for e in ev:
        if boundary and e["e"] in ("fwd", "zero") and (not out or r.random() < 0.4):
            s = last = first if not out else any_scale(r, last if low else None)
            if src == "manual":
                out.append({"e": "scale", "s": s})
            elif out:
                out.append({"e": "update_scale", "s": s})
            else:
                out.append({"e": "noop"})
            boundary = False
        if e["e"] == "fwd":
            boundary = False
        if src == "scaler" and e["e"] == "fwd" and r.random() < 0.12:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        out.append(e)
        if e["e"] == "step":
            boundary = True
            if r.random() < 0.08:
                out.append({"e": "restart"})
    scaler = {"init_scale": first, "growth_interval": r.choice([1, 1, 2, 3]), "growth_factor": r.choice([2.0, 1.7, 4.0]) if not low else 1.5,
              "backoff_factor": r.choice([0.5, 0.3])} if src == "scaler" else None
    return {"cfg": cfg, "events": out, "scaler": scaler, "src": src, "first": first}


def run(scn, res):
    sim = hist.Sim(scn["cfg"], res, scaler=scn["scaler"], clipped=any(e.get("clip") for e in scn["events"]))
    sim.ext["noop"] = lambda ev: None
    pending = [False]  # gradients of the current scale
    for k in ("scale", "update_scale"):
        sim.ext[k] = lambda ev, f=sim.ext[k]: None if pending[0] or sim.guard.slots else f(ev)
    st = res.stats
    if scn["src"] == "manual":
        sim.sys.manual = scn["first"]
    scales = []

    def cur():
        return sim.sys.manual if scn["src"] == "manual" else sim.sys.scaler.get_scale()

    def after(i, ev):
        if ev["e"] in ("bwd", "step", "zero"):
            pending[0] = ev["e"] == "bwd"
        if ev["e"] == "update_scale":
            st["update_scale"] += 1
        if ev["e"] == "bwd":
            s = cur()
            if not scales or scales[-1] != s:
                scales.append(s)
        if ev["e"] == "step":
            st["skipped"] += sim.refs[0].overflow
            st["clipped"] += bool(ev.get("clip"))

    sim.run(scn["events"], after)
    st["src_" + scn["src"]] += 1
    st["low_precision"] += bool(scn["cfg"].get("low"))
    st["scale_changed"] += len(scales) > 1
    st["non_power_of_two"] += any(s and (s.hex().split("p")[0] != "0x1.0000000000000") for s in scales)
    st["init_match" if scn["cfg"]["init_grad_scale"] == scn["first"] else "init_mismatch"] += 1
    st["T>1"] += any(g["hp"]["T"] > 1 for g in scn["cfg"]["groups"])
    res.nontrivial = len(set(scales)) >= 2 and len({t for t, _ in sim.refs[0].ref.refreshes}) >= 2
    res.sig = hist.sig(hist.cfg_sig(scn["cfg"]), hist.ev_sig(scn["events"]), scn["src"])

"""C15: independent trainers in one process do not affect each other."""
import copy
import random

import torch

from .. import env, hist, nets, sched, trainer, twin
from .. import events as E
from .. import faults
from .. import gen as G
from ..core import Violation
from ..env import SINGD_DIR

PROP = "C15"
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 30000}
TIME_UNIT = "scheduling decisions"
RULE = ("two or three trainers (equal networks, networks that differ in one detail or altogether, with equal layer names, configurations, gradient scalers, restarts "
        "from checkpoints, some built or discarded while the others run), every one in a thread of its own that is preempted "
        "at tensor operations or at single lines of singd, or all in one thread with interleaved calls; two optimizers on "
        "disjoint layers of one model; one optimizer after another on one model whose first one is kept or dropped; each "
        "compared after every step with the same trainer alone in a new process; non-trivial: switches inside calls and two "
        "compared steps; distinct: interleaving and configurations")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler", "torch.save/load"],
              "stub": [], "oracle": ["each trainer alone"]}
ASSUMPTIONS = ["every trainer is used by one thread at a time"]
PROBES = ["threads", "one_thread", "disjoint", "successive", "line_level", "same_config", "restart", "skipped", "three",
          "sibling_conv_d", "sibling_conv_s", "sibling_conv_p", "sibling_dtype", "sibling_hp"]


def gen_one(r, mode):
    net_kw = {"max_layers": 2}
    cfg = G.gen_cfg(r, ckpt=0.08, n_groups=r.choice([1, 1, 2]), net_kw=net_kw, big=r.random() < 0.1)
    cfg["n"] = r.choice([1, 2, 3])
    scaler = {"init_scale": 2.0 ** r.randint(0, 12), "growth_interval": 2} if r.random() < 0.25 else None
    return {"cfg": cfg, "scaler": scaler, "events": gen_events(r, scaler)}


def gen_events(r, scaler, lo=2, hi=4, restart=0.1):
    ev = hist.gen_passes(r, r.randint(lo, hi), p_eval=0.15, p_multi=0.3, p_retain=0.05, p_fwdonly=0.1,
                         p_nozero=0.0 if scaler else 0.1, zero_where=r.choice(["before", "after"]))
    out = []
    for e in ev:
        if scaler and e["e"] == "fwd" and r.random() < 0.15:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        out.append(e)
        if e["e"] == "step" and r.random() < restart:
            out.append({"e": "restart"})
    return out


def gen(r, tier):
    mode = r.choice(["threads", "threads", "threads", "one_thread", "disjoint", "successive"])
    scn = {"mode": mode, "sched": r.randrange(10**9), "p_switch": r.choice([0.02, 0.1, 0.3, 1.0]),
           "line": r.random() < 0.3}
    if mode in ("threads", "one_thread"):
        k = r.choice([2, 2, 3])
        scn["trainers"] = [gen_one(r, mode) for _ in range(k)]
        if r.random() < 0.7:
            a, b = scn["trainers"][:2]
            if r.random() < 0.4:  # convolutions have most attributes a trainer could confuse
                a["cfg"] = G.gen_cfg(r, net_kw={"max_layers": 2, "kinds": ("conv",)})
            b["cfg"] = {**copy.deepcopy(a["cfg"]), "init": b["cfg"]["init"]}
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                scn["sibling"] = sibling(r, b["cfg"]) or scn.get("sibling")
        for one in scn["trainers"]:
            hist.vary(r, one["events"], one["cfg"]["net"], 0.15, cfg=one["cfg"])
        scn["late"] = [r.randrange(30) if i and r.random() < 0.3 else 0 for i in range(k)]
        return scn
    while True:
        one = gen_one(r, mode)
        if mode != "disjoint" or len(nets.layer_ops(one["cfg"]["net"])) >= 2:
            break
    one["scaler"] = None
    cfg = one["cfg"]
    if mode == "disjoint":
        layers = list(nets.layer_ops(cfg["net"]))
        r.shuffle(layers)
        k = r.randint(1, len(layers) - 1)
        hp = cfg["groups"][0]["hp"]
        h2 = G.gen_hp(r, structs=G.pick_structs(r, cfg["dtype"] == "f64"), avg=hp["loss_average"] or "none")
        cfg["groups"] = [{"layers": sorted(layers[:k]), "hp": hp}, {"layers": sorted(layers[k:]), "hp": h2}]
        cfg["params"] = "groups"
        one["events"] = gen_events(r, None, 3, 6, 0.0)
        for e in one["events"]:
            if e["e"] == "step":
                e["flip"] = r.random() < 0.5
            if e["e"] == "zero":
                e["via"] = "opt"
    else:
        one["events"] = gen_events(r, None, 1, 4, 0.0)
        hp = cfg["groups"][0]["hp"]
        h2 = G.gen_hp(r, structs=G.pick_structs(r, cfg["dtype"] == "f64"), avg=hp["loss_average"] or "none")
        scn["second"] = {"groups": [{"layers": list(nets.layer_ops(cfg["net"])), "hp": h2}], "keep": r.random() < 0.6,
                         "events": gen_events(r, None, 2, 4, 0.0), "params": r.choice(["none", "list", "groups"])}
    scn["trainers"] = [one]
    return scn


def conv_out(o, hw):
    out = []
    for x, k, st, d, p in zip(hw, o["k"], o["s"], o["d"], o["p"] if not isinstance(o["p"], str) else (None, None)):
        q = 0 if o["p"] == "valid" else (d * (k - 1) // 2 if o["p"] == "same" else p)
        out.append((x + 2 * q - d * (k - 1) - 1) // st + 1)
    return out


def sibling(r, cfg):
    """Change one detail in place: things that look alike are what process-wide state confuses."""
    kind = r.choice(["conv", "conv", "conv", "dtype", "hp", "hp", "n", "bias", "act"])
    ops = cfg["net"]["ops"]
    if kind == "conv":
        if not any(o["op"] == "conv" for o in ops) or any(o["op"] in ("flatten", "ckpt") for o in ops):
            return None
        new = copy.deepcopy(ops)
        o = r.choice([o for o in new if o["op"] == "conv"])
        k = r.choice(["d", "d", "s", "p", "g"])
        if k == "p":
            o["p"] = [r.choice([0, 1]), r.choice([0, 1])]
        elif k == "g":
            o["g"] = 1 if o["g"] > 1 else (o["cin"] if o["cout"] % o["cin"] == 0 else 1)
        else:
            if o["p"] == "same":
                return None
            i = r.randrange(2)
            o[k][i] = 3 - o[k][i]
        hw = [cfg["net"]["input"]["h"], cfg["net"]["input"]["w"]]
        for o in new:
            if o["op"] == "conv":
                before, hw = hw, conv_out(o, hw)
                if min(hw) < 1 or min(before) <= (2 if o.get("pm", "zeros") != "zeros" else 0):
                    return None
        cfg["net"]["ops"] = new
        return f"conv_{k}"
    if kind == "dtype":
        if cfg["dtype"] == "f64":
            cfg["dtype"] = "f32"
        elif all(s in G.F64_OK for g in cfg["groups"] for s in g["hp"]["structures"]):
            cfg["dtype"] = "f64"
        else:
            return None
    elif kind == "hp":
        hp = r.choice(cfg["groups"])["hp"]
        new = G.gen_hp(r, structs=G.pick_structs(r, cfg["dtype"] == "f64"), avg=hp["loss_average"] or "none")
        k = r.choice([k for k in hp if k not in ("loss_average", "alpha1", "kfac_like")])
        hp[k] = new[k]
    elif kind == "n":
        cfg["n"] = r.choice([1, 2, 3, 4])
    elif kind == "bias":
        o = r.choice(list(nets.layer_ops(cfg["net"]).values()))
        o["bias"] = not o["bias"]
    elif kind == "act":
        o = [o for o in nets._walk(ops) if o["op"] == "act"]
        if not o:
            return None
        r.choice(o)["f"] = r.choice(nets.SMOOTH)
    return kind


class Shim:
    def __init__(self, t, scn, res):
        self.sys, self.refs, self.cfg, self.res = t, [], scn["cfg"], res
        self.scaler, self.sched = scn["scaler"], None


def life(scn, res, on_event=None, st=None):
    """A trainer from construction on; a generator that yields after every event."""
    cfg = scn["cfg"]
    t = trainer.Trainer(cfg, scaler=scn["scaler"])
    t.quiet = True
    sh = Shim(t, scn, res)
    got = []
    yield got
    for ev in twin.legalise(scn["events"], bool(scn["scaler"])):
        if ev["e"] == "restart":
            E.restart(sh, ev)
            sh.sys.quiet = True
        else:
            if ev["e"] == "step" and sh.sys.scaler is not None:
                res.stats["skipped"] += sh.sys.grads_overflow()
            hist.apply(sh.sys, ev, cfg["n"])
            if ev["e"] == "step":
                got.append(sh.sys.obs())
        yield got


def alone(scn, res):
    env.reset_process()
    for got in life(scn, res):
        pass
    return got


def compare_all(scn, res, got, want, what):
    ev = [e for e in scn["events"] if e["e"] != "restart"]
    pair = twin.Pair(res, twin.Rounding(scn["cfg"], ev, scn["scaler"]))
    if len(got) != len(want):
        raise Violation("steps", f"{what}: {len(got)} instead of {len(want)} steps")
    for n, (a, b) in enumerate(zip(got, want), 1):
        if not pair.check(f"{what}, step {n}", a, b, n):
            break
        res.note_obs(a)
    return pair.compared


def run(scn, res):
    st = res.stats
    st[scn["mode"]] += 1
    if scn.get("sibling"):
        st["sibling_" + scn["sibling"]] += 1
    if scn["mode"] == "disjoint":
        return disjoint(scn, res)
    if scn["mode"] == "successive":
        return successive(scn, res)
    ts = scn["trainers"]
    st["three"] += len(ts) > 2
    st["same_config"] += len(ts) > 1 and hist.cfg_sig(ts[0]["cfg"]) == hist.cfg_sig(ts[1]["cfg"])
    want = [alone(t, res) for t in ts]
    env.reset_process()
    rng = random.Random(scn["sched"])
    got = [[] for _ in ts]
    if scn["mode"] == "one_thread":
        gens = [life(t, res) for t in ts]
        wait = list(scn["late"])
        live = list(range(len(ts)))
        log = []
        while live:
            i = rng.choice(live)
            if wait[i] > 0 and len(live) > 1:
                wait[i] -= 1
                continue
            log.append(i)
            try:
                got[i] = next(gens[i])
            except StopIteration:
                live.remove(i)
                gens[i] = None  # the trainer is gone
            res.simtime += 1
        inter, switches = hist.sig(log), len(log)
    else:
        s = sched.Sched(rng, p_switch=scn["p_switch"], line_dir=SINGD_DIR if scn["line"] else None, p_line=0.02)
        st["line_level"] += scn["line"]
        s.monitor = watch()

        def body(i):
            def f(task):
                with faults.OpCounter(on_op=s.point):
                    for _ in range(scn["late"][i]):
                        s.point("late")
                    for got[i] in life(ts[i], res):
                        pass
            return f
        for i in range(len(ts)):
            s.spawn(f"t{i}", body(i))
        try:
            s.run()
        except sched.StepLimit as e:
            raise Violation("no progress", str(e)) from None
        inter, switches = hist.sig(s.log), s.now
        res.simtime += s.now
        st["preemption_points"] += s.n_points
    res.note(inter)
    n = sum(compare_all(t, res, g, w, f"trainer {i} of {len(ts)}") for i, (t, g, w) in enumerate(zip(ts, got, want)))
    res.nontrivial = switches > len(ts) and n >= 2
    res.sig = hist.sig(inter, [hist.cfg_sig(t["cfg"]) for t in ts])


def settings():
    return (torch.get_default_dtype(), torch.are_deterministic_algorithms_enabled(), torch.get_num_threads(),
            torch.is_deterministic_algorithms_warn_only_enabled(), torch.get_float32_matmul_precision(),
            torch.backends.mkldnn.enabled, torch.is_anomaly_enabled())


def watch():
    """Process-wide settings must be the user's whenever another thread can run."""
    start = settings()

    def f():
        if settings() != start:
            raise Violation("process-wide setting", f"another thread sees {settings()} instead of {start}")
    return f


def disjoint(scn, res):
    """Two optimizers for disjoint layers of a model, and one optimizer with two groups."""
    one = scn["trainers"][0]
    cfg = one["cfg"]
    want = alone(one, res)
    env.reset_process()
    model = trainer.build_model(cfg)
    aux = trainer.aux_params(cfg, model)
    opts = [trainer.build_opt({**cfg, "params": "groups"}, model, groups=[g]) for g in cfg["groups"]]
    sgd = torch.optim.SGD([p for _, p in aux], lr=cfg["aux_lr"]) if aux else None
    pair_t = Pairwise(cfg, model, opts, sgd)
    got = []
    for ev in twin.legalise(one["events"], False):
        hist.apply(pair_t, ev, cfg["n"])
        if ev["e"] == "step":
            got.append(pair_t.obs())
            res.simtime += 1
    n = compare_all(one, res, got, want, "two optimizers")
    res.nontrivial = n >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(one["events"]))


class Pairwise(trainer.Trainer):
    """Several optimizers on one model."""

    def __init__(self, cfg, model, opts, aux):
        self.cfg, self.model, self.opts, self.aux = cfg, model, opts, aux
        self.dtype = trainer.DT[cfg["dtype"]]
        self.avg = cfg["groups"][0]["hp"]["loss_average"]
        self.slots, self.ovf_param, self.scaler, self.manual, self.sched = {}, {}, None, None, None
        self.flip = False
        self.quiet = True

    def zero_grad(self, set_to_none=True, via="opt"):
        for self.opt in self.opts:
            super().zero_grad(set_to_none, via)

    def step(self):
        self.flip = not self.flip
        aux, self.aux = self.aux, None
        for self.opt in (self.opts if self.flip else self.opts[::-1]):
            super().step()
        self.aux = aux
        if aux is not None:
            aux.step()

    def obs(self):
        o = {}
        for self.opt in self.opts:
            o.update(super().obs())
        return o


def successive(scn, res):
    """A second optimizer takes over a model."""
    one, two = scn["trainers"][0], scn["second"]
    cfg = one["cfg"]
    t = trainer.Trainer(cfg)
    t.quiet = True
    for ev in twin.legalise(one["events"], False):
        hist.apply(t, ev, cfg["n"])
    t.zero_grad(True, "opt")
    t.zero_grad(True, "model")
    values = {k: v.clone() for k, v in t.model.state_dict().items()}
    cfg2 = {**cfg, "groups": two["groups"], "params": two["params"]}
    second = {"cfg": cfg2, "scaler": None, "events": two["events"]}

    def go(model):
        t2 = trainer.Trainer(cfg2, model=model)
        t2.quiet = True
        got = []
        for ev in twin.legalise(two["events"], False):
            hist.apply(t2, ev, cfg["n"])
            if ev["e"] == "step":
                got.append(t2.obs())
        return got

    first = t if two["keep"] else None
    model = t.model
    del t
    got = go(model)
    del first
    env.reset_process()
    fresh = trainer.build_model(cfg)
    fresh.load_state_dict(values)
    want = go(fresh)
    pair = twin.Pair(res, 1e-6 if cfg["dtype"] == "f64" else 1e-2)
    for n, (a, b) in enumerate(zip(got, want), 1):
        if not pair.check(f"second optimizer, step {n}", a, b, n):
            break
        res.note_obs(a)
    if len(got) != len(want):
        raise Violation("steps", "second optimizer")
    res.simtime += len(got)
    res.nontrivial = pair.compared >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.hp_class(two["groups"][0]["hp"]), hist.ev_sig(two["events"]))

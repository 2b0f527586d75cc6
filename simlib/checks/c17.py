"""C17: rejected or failing calls leave everything as it was."""
import copy
import warnings

import torch

from .. import faults, hist, nets, trainer, twin
from .. import gen as G
from ..core import SutError, Violation
from ..env import SINGD
from .c09 import Shim, do, fingerprint
from .c16 import hooks

PROP = "C17"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 30000}
TIME_UNIT = "optimizer steps"
RULE = ("training histories into which rejected or failing calls are inserted at random events (also between forward, "
        "backward and step, and before the first optimizer exists): constructors with invalid arguments, with a failing "
        "tensor operation, step(closure), load_state_dict with truncated, incomplete or mismatched states or a failing "
        "tensor operation; around every call the model, gradients, hooks, optimizer state, random state and warning filters "
        "are fingerprinted, and a twin run goes without the calls; non-trivial: three rejected calls and two steps; "
        "distinct: network, qualitative configuration, calls and positions")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.optim.Optimizer", "torch.amp.GradScaler"], "stub": [],
              "oracle": ["fingerprints around the call", "the same history without the calls, bit by bit"]}
ASSUMPTIONS = ["a failing allocation is an exception at a tensor operation",
               "as in PyTorch, the constructor may complete the group dictionaries it is given"]
CTOR = ["neg_lr", "neg_lr_cov", "neg_alpha1", "neg_momentum", "neg_weight_decay", "bad_approx", "bad_average", "split_layer",
        "wrapper", "bad_structure", "bad_structure_group", "duplicate", "alloc", "alloc", "alloc"]
LOAD = ["truncated", "missing", "missing", "layer", "dims", "groups", "params", "empty", "none", "foreign", "alloc", "alloc"]
PROBES = [f"ctor_{k}" for k in set(CTOR)] + [f"load_{k}" for k in set(LOAD)] + ["closure", "before_first", "pending_graph",
                                                                             "mid_accumulation"]
KEYS = ["steps", "_grad_scales", "Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs", "state", "param_groups"]


def gen_call(r):
    k = r.choice(["ctor", "ctor", "ctor", "load", "load", "load", "closure"])
    c = {"e": "reject", "call": k, "seed": r.randrange(10**6)}
    if k == "ctor":
        c["kind"] = r.choice(CTOR)
    if k == "load":
        c["kind"] = r.choice(LOAD)
        c["key"] = r.choice(KEYS)
    if c.get("kind") == "alloc":
        c.update(frac=float(f"{r.random():.3f}"), exc=r.choice(["oom", "interrupt", "error"]))
    return c


def gen(r, tier):
    cfg = G.gen_cfg(r, ckpt=0.1, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3})
    scaler = {"init_scale": 2.0 ** r.randint(1, 10), "growth_interval": 2} if r.random() < 0.15 else None
    ev = hist.gen_passes(r, r.randint(2, 5), p_eval=0.1, p_multi=0.3, p_retain=0.05, p_fwdonly=0.1,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0)
    out = []
    p = r.choice([0.1, 0.3, 0.5])
    for e in ev:
        out.append(e)
        while r.random() < p:
            out.append(gen_call(r))
    pre = [c for c in (gen_call(r) for _ in range(r.choice([0, 0, 1, 2]))) if c["call"] == "ctor"]
    return {"cfg": cfg, "events": out, "pre": pre, "scaler": scaler}


def ctor_args(c, cfg, model):
    """(model, params, keywords) that must be rejected, or None if the kind does not apply."""
    kw = dict(trainer.hp_real(cfg["groups"][0]["hp"]))
    k = c["kind"]
    params = None
    layers = list(nets.layer_ops(cfg["net"]))
    if k.startswith("neg_"):
        kw[k[4:]] = -0.1
    elif k == "bad_approx":
        kw["kfac_approx"] = "expnad"
    elif k == "bad_average":
        kw["loss_average"] = "sequence"
    elif k == "bad_structure":
        kw["structures"] = ("dense", "no-such-structure") if c["seed"] % 2 else ("no-such-structure", "dense")
    elif k == "bad_structure_group":
        if len(layers) < 2:
            return None
        params = [{"params": list(model.layers[l].parameters())} for l in layers]
        params[-1]["structures"] = ("dense", "no-such-structure")
    elif k == "split_layer":
        l = next((l for l in layers if model.layers[l].bias is not None), None)
        if l is None:
            return None
        params = [{"params": [model.layers[l].weight]}, {"params": [model.layers[l].bias], "lr": 0.5}]
    elif k == "duplicate":
        p = list(model.layers[layers[0]].parameters())
        params = [{"params": p}, {"params": p}]
    elif k == "wrapper":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            model = torch.nn.DataParallel(model)
    return model, params, kw


def world(model, opt, aux):
    """Everything a rejected call could touch."""
    d = {"model": fingerprint(dict(model.state_dict())), "hooks": hooks(model),
         "grads": fingerprint([p.grad for p in model.parameters()]),
         "requires_grad": [p.requires_grad for p in model.parameters()], "training": [m.training for m in model.modules()],
         "rng": torch.get_rng_state().numpy().tobytes(), "filters": list(map(str, warnings.filters)),
         "module_attrs": [sorted(vars(m)) for m in model.modules()]}
    if opt is not None:
        d["opt"] = fingerprint(opt.state_dict())
        d["attrs"] = sorted(vars(opt))
    return d


def same_world(a, b, what):
    for k in a:
        if a[k] != b[k]:
            extra = f": {a[k]} -> {b[k]}" if k in ("hooks", "attrs") else ""
            raise Violation("side effect", f"{what}: {k} changed{extra}")


def damaged(c, cfg, opt, scn):
    """A state that must be rejected (None: does not apply)."""
    s = copy.deepcopy(opt.state_dict())
    k = c["kind"]
    if k == "missing":
        del s[c["key"]]
    elif k == "layer":
        which = ["Ks", "Cs"][c["seed"] % 2]
        name = sorted(s[which])[c["seed"] % len(s[which])]
        if c["seed"] % 3 == 0:
            del s[which][name]
        else:
            s[which]["other." + name] = s[which].pop(name)
    elif k == "dims":
        which = ["Ks", "Cs"][c["seed"] % 2]
        name = sorted(s[which])[c["seed"] % len(s[which])]
        m = s[which][name]
        s[which][name] = type(m).eye(m.to_dense().shape[0] + 1)
    elif k == "groups":
        s["param_groups"].append(copy.deepcopy(s["param_groups"][0]))
    elif k == "params":
        s["param_groups"][0]["params"] = s["param_groups"][0]["params"] + [997]
    elif k == "empty":
        s = {}
    elif k == "none":
        s = None
    elif k == "foreign":
        from ..rng import rng
        r = rng("foreign", c["seed"])
        other = G.gen_cfg(r, net_kw={"max_layers": 3}, f64=cfg["dtype"] == "f64")
        with torch.random.fork_rng(devices=[]):
            t = trainer.Trainer(other)
        mine = sorted((n, tuple(m.to_dense().shape)) for d in (opt.Ks, opt.Cs) for n, m in d.items())
        theirs = sorted((n, tuple(m.to_dense().shape)) for d in (t.opt.Ks, t.opt.Cs) for n, m in d.items())
        if mine == theirs:
            return "skip"
        s = t.opt.state_dict()
    return s


def attempt(fn, what):
    """The call must raise."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except BaseException as e:
        if isinstance(e, (Violation, SutError)):
            raise
        e.__traceback__ = None
        return
    raise Violation("accepted", f"{what} raised no error")


def ctor(c, cfg, model, st):
    args = ctor_args(c, cfg, model)
    if args is None:
        return
    m, params, kw = args
    st["ctor_" + c["kind"]] += 1

    def call():
        SINGD(m, params, warn_unsupported=False, **kw)

    if c["kind"] == "alloc":
        probe = copy.deepcopy(model)
        with faults.OpCounter() as n:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = SINGD(probe, params, warn_unsupported=False, **kw)
        del o
        if n.n == 0:
            return
        at = min(int(c["frac"] * n.n), n.n - 1)

        def call():
            with faults.OpCounter(at, c["exc"]):
                SINGD(m, params, warn_unsupported=False, **kw)

    before = None
    try:
        attempt(call, f"constructor ({c['kind']})")
    finally:
        del before


def call(c, cfg, tr, scn, st):
    opt = tr.opt
    if c["call"] == "ctor":
        return ctor(c, cfg, tr.model, st)
    if c["call"] == "closure":
        st["closure"] += 1

        def closure():
            x, y = tr.data(c["seed"], cfg["n"])
            loss = nets.loss_fn(tr.model(x), y, tr.avg, cfg["loss"], 1.0)
            loss.backward()
            return loss

        return attempt(lambda: opt.step(closure), "step(closure)")
    st["load_" + c["kind"]] += 1
    if c["kind"] == "truncated":
        b = trainer.to_bytes(opt.state_dict())
        return attempt(lambda: opt.load_state_dict(trainer.from_bytes.__wrapped__(b[:len(b) * (c["seed"] % 97) // 100],
                                                                                  False)), "truncated check-point")
    if c["kind"] == "alloc":
        s = copy.deepcopy(opt.state_dict())
        with torch.random.fork_rng(devices=[]):
            probe = trainer.Trainer(cfg)
        with faults.OpCounter() as n:
            probe.opt.load_state_dict(s)
        if n.n == 0:
            return
        at = min(int(c["frac"] * n.n), n.n - 1)
        # the state differs from the current one, such that a partial load is seen
        for d in (s["Ks"], s["Cs"], s["m_Ks"], s["m_Cs"]):
            for m in d.values():
                m.mul_(0.5)
        for e in s["state"].values():
            for t in e.values():
                t.mul_(0.5)
        s["steps"] += 1
        for g in s["param_groups"]:
            g["lr"] *= 0.5

        def load():
            with faults.OpCounter(at, c["exc"]):
                opt.load_state_dict(s)
        return attempt(load, "load_state_dict with a failing tensor operation")
    s = damaged(c, cfg, opt, scn)
    if s == "skip":
        return
    if isinstance(s, dict) and s and c["kind"] != "foreign":
        s["steps"] = s.get("steps", 0) + 1 if "steps" in s else 0
        for g in s.get("param_groups", ()):
            g["lr"] = g["lr"] * 0.5
        if c["kind"] == "missing" and c["key"] == "steps":
            s.pop("steps")
    attempt(lambda: opt.load_state_dict(s), f"load_state_dict ({c['kind']}"
            + (f" {c['key']})" if c["kind"] == "missing" else ")"))


def run(scn, res):
    cfg, st = scn["cfg"], res.stats
    g = hist.Guard(bool(scn["scaler"]))
    events = [e for e in scn["events"] if g.ok(e)]
    plain = [e for e in events if e["e"] != "reject"]
    a = Shim(trainer.Trainer(cfg, scaler=scn["scaler"]), cfg, res)
    want = [a.sys.obs()]
    for e in plain:
        do(a, e)
        if e["e"] == "step":
            want.append(a.sys.obs())
    pair = twin.Pair(res, twin.Rounding(cfg, plain, scn["scaler"]))
    model = trainer.build_model(cfg)
    n = 0
    for c in scn["pre"]:
        w = world(model, None, None)
        ctor(c, cfg, model, st)
        same_world(w, world(model, None, None), f"{c['kind']} constructor before the first optimizer")
        st["before_first"] += 1
        n += 1
    b = Shim(trainer.Trainer(cfg, model=model, scaler=scn["scaler"]), cfg, res)
    h0 = hooks(a.sys.model)
    step = 0
    pair.check("after construction", b.sys.obs(), want[0], 0)
    for i, e in enumerate(events):
        if e["e"] == "reject":
            w = world(model, b.sys.opt, None)
            st["pending_graph"] += bool(b.sys.slots)
            st["mid_accumulation"] += bool(b.sys.opt.H_Ks)
            call(e, cfg, b.sys, scn, st)
            same_world(w, world(model, b.sys.opt, None), f"event {i}: {e['call']} {e.get('kind', '')}")
            n += 1
            continue
        do(b, e)
        if e["e"] == "step":
            step += 1
            res.simtime += 1
            o = b.sys.obs()
            res.note_obs(o)
            pair.check(f"step {step}", o, want[step], step)
            if not b.sys.slots and hooks(model) != h0:
                raise Violation("hooks", f"step {step}: {hooks(model)} hooks instead of {h0}")
    res.nontrivial = n >= 3 and step >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), [(e["e"], e.get("call"), e.get("kind"), e.get("key")) for e in events],
                       [c["kind"] for c in scn["pre"]])

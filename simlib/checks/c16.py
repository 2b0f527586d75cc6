"""C16: optimizer state stays bounded over any history."""
import gc
import weakref

import torch

from .. import gen as G
from .. import env, hist, nets, trainer
from .. import events as E
from ..core import Violation

PROP = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 20000}
TIME_UNIT = "optimizer steps"
RULE = ("long histories (10-30 steps) of steps, accumulation, evaluation, abandoned and discarded passes, skipped steps, "
        "in-place re-loading of the own state and restarts; at every quiescent point (after step, gradients None, no "
        "pending graph, garbage collected): number of entries and bytes of the state, hooks on modules and parameters, "
        "weak references to activations and gradients of the passes, and live tensors that belong to no known owner, Python objects reachable from the optimizer, entries of "
        "process-wide containers of the library; "
        "non-trivial: >= 8 steps; distinct: network, qualitative configuration, event kinds")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch autograd", "torch.amp.GradScaler", "Python GC"],
              "stub": [], "oracle": ["constancy of the measures after the first two steps"]}
ASSUMPTIONS = ["the model itself keeps nothing"]
PROBES = ["skipped", "abandon_discard", "restart", "reload", "eval", "quiescent", "tracked_tensors", "accumulated"]


def gen(r, tier):
    scaler = r.random() < 0.5
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 2]), net_kw={"max_layers": 3, "ln": 0.0})
    for g in cfg["groups"]:
        g["hp"]["lr"] *= 0.2
        g["hp"]["lr_cov"] = G.u(r, 0.005, 0.05)
    ev = hist.gen_passes(r, r.randint(10, 30), p_eval=0.15, p_multi=0.2, p_retain=0.05, p_fwdonly=0.1,
                         zero_where="after", p_nozero=0.0, via_model=r.choice([0.0, 0.5]))
    hist.vary(r, ev, cfg["net"], 0.3, cfg=cfg)
    out = []
    pa, po = r.choice([0.0, 0.2]), r.choice([0.0, 0.3])
    for e in ev:
        if e["e"] == "zero":
            e["none"] = True
        if scaler and e["e"] == "fwd" and r.random() < po:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        if e["e"] == "fwd" and r.random() < pa:
            a = E.gen_abandon(r)
            if a.get("where") == "bwd":  # PyTorch itself leaks the graph if one of its own backward ops raises
                a.update(unit="line", exc="interrupt")
            out += [a, {"e": "zero", "none": True, "via": "opt"}]
        out.append(e)
        if e["e"] == "zero":
            if r.random() < 0.08:
                out.append({"e": r.choice(["reload", "restart"])})
    return {"cfg": cfg, "events": out, "scaler": {"init_scale": 2.0 ** r.randint(0, 10), "growth_interval": 2}
            if scaler else None}


def leaves(x, depth=0):
    """(number of entries, bytes of tensors) in a nested state."""
    if isinstance(x, torch.Tensor):
        return 1, x.numel() * x.element_size()
    if isinstance(x, dict):
        it = list(x.values())
    elif isinstance(x, (list, tuple, set)):
        it = list(x)
    elif hasattr(x, "named_tensors"):
        it = [t for _, t in x.named_tensors()]
    else:
        return 1, 0
    n = b = 0
    for y in it:
        m, c = leaves(y, depth + 1)
        n, b = n + m, b + c
    return n + len(it), b


def owned(x, out, depth=0):
    if depth > 6:
        return
    if isinstance(x, torch.Tensor):
        out.add(id(x))
        if x.grad is not None:
            out.add(id(x.grad))
    elif isinstance(x, dict):
        for y in list(x.values()):
            owned(y, out, depth + 1)
    elif isinstance(x, (list, tuple, set)):
        for y in x:
            owned(y, out, depth + 1)
    elif type(x).__module__.startswith(("singd", "torch.amp")):
        owned(vars(x), out, depth + 1)


def hooks(model):
    n = 0
    for m in model.modules():
        for a in ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks"):
            n += len(getattr(m, a, ()) or ())
    for p in model.parameters():
        n += len(p._backward_hooks or ()) + len(getattr(p, "_post_accumulate_grad_hooks", None) or ())
    return n


def reach(x, seen, depth=0):
    """Python objects kept by the optimizer (the model and its tensors excluded)."""
    if id(x) in seen or depth > 8 or isinstance(x, (torch.nn.Module, type, int, float, str, bool, type(None))):
        return
    seen[id(x)] = x
    if isinstance(x, torch.Tensor):
        return
    if isinstance(x, dict):
        for k, v in x.items():
            reach(v, seen, depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ in ("deque", "OrderedDict"):
        for v in x:
            reach(v, seen, depth + 1)
    elif type(x).__module__.startswith("singd") and hasattr(x, "__dict__"):
        reach(vars(x), seen, depth + 1)


def library_size():
    """Entries of the containers and caches at module, class and function level of singd."""
    vals, cont = env._holders()
    n = sum(len(c) for c in cont)
    return n + sum(v.cache_info().currsize for _, _, v in vals if hasattr(v, "cache_info"))


def grows(xs):
    """Keeps growing: several increases in the second half, none taken back."""
    h = xs[len(xs) // 2:]
    ups = sum(b > a for a, b in zip(h, h[1:]))
    return len(h) >= 4 and ups >= 3 and h[-1] == max(xs) and ups * 2 >= len(h) - 1


_frozen = []


def run(scn, res):
    if not _frozen:
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    cfg, st = scn["cfg"], res.stats

    class Sim(hist.Sim):
        """No reference: only the real system."""

        def compare(self, what, keys=None):
            return True

    sim = Sim(cfg, res, scaler=scn["scaler"])
    sim.refs = []
    layers = list(nets.layer_ops(cfg["net"]))
    track = []

    def watch(model):
        def hook(mod, inp, kw, out):
            track.extend([weakref.ref(inp[0] if inp else kw["input"]), weakref.ref(out)])
            if out.requires_grad:
                out.register_hook(lambda g: track.append(weakref.ref(g)))
        for l in layers:
            model.layers[l].register_forward_hook(hook, prepend=True, with_kwargs=True)

    def reload(ev):
        sim.sys.opt.load_state_dict(sim.sys.opt.state_dict())
        st["reload"] += 1

    def restart(ev):
        E.restart(sim, ev)
        objects.clear()
        watch(sim.sys.model)

    sim.ext.update(reload=reload, restart=restart)
    watch(sim.sys.model)
    base, settled, held = None, 0, None
    n_hooks = hooks(sim.sys.model)
    new_unowned, objects, library = [], [], []
    steps = bwd = 0
    n_steps = sum(e["e"] == "step" for e in scn["events"])
    for i, ev in enumerate(scn["events"]):
        if not sim.guard.ok(ev):
            continue
        was_ovf = ev["e"] == "step" and sim.sys.scaler is not None and sim.sys.grads_overflow()
        sim.one(i, ev)
        st["eval"] += ev["e"] == "eval"
        bwd += ev["e"] == "bwd"
        if ev["e"] == "step":
            steps += 1
            st["skipped"] += was_ovf
            st["accumulated"] += bwd > 1
            bwd = 0
            settled += not was_ovf
            if settled >= 1 and steps >= 2:
                now = leaves(sim.sys.opt.state_dict())
                if base is None:
                    base = now
                elif now != base:
                    raise Violation("state size", f"event {i}, step {steps}: state has (entries, bytes) {now}, was {base}")
        n = hooks(sim.sys.model)
        if n != n_hooks:
            raise Violation("hooks", f"event {i} ({ev['e']}): {n} hooks on the model, were {n_hooks}")
        res.note(i, ev["e"], base, n)
        # quiescent point?
        if ev["e"] == "zero" and not sim.guard.slots and not sim.guard.have_grad:
            st["quiescent"] += 1
            sim.sys.slots.clear()
            gc.collect()
            alive = [w() for w in track]
            st["tracked_tensors"] += len(track)
            alive = [t for t in alive if t is not None]
            if alive:
                raise Violation("retained", f"event {i}: {len(alive)} activations/gradients of finished passes are "
                                f"still alive, e.g. of shape {tuple(alive[0].shape)}")
            track.clear()
            seen = {}
            reach(vars(sim.sys.opt), seen)
            objects.append(len(seen))
            seen.clear()
            library.append(library_size())
            res.note(library[-1])
            for what, xs in (("objects kept by the optimizer", objects), ("entries of process-wide containers", library)):
                if grows(xs):
                    raise Violation("growth", f"event {i}: number of {what} keeps growing: {xs}")
            if 2 * steps >= n_steps or steps >= 6:
                own = set()
                owned(vars(sim.sys.opt), own)
                if settled >= 1 and held is not None and len(own) > held:
                    raise Violation("state size", f"event {i}: {len(own)} tensors reachable from the optimizer, were {held}")
                if settled >= 1 and held is None:
                    held = len(own)
                owned(list(sim.sys.model.parameters()) + list(sim.sys.model.buffers()), own)
                owned(sim.sys.scaler, own)
                fresh = 0
                for t in [t for t in gc.get_objects() if isinstance(t, torch.Tensor)]:
                    if id(t) in own or t.numel() <= 1:
                        continue
                    if not hasattr(t, "_sim_seen"):
                        fresh += 1
                        t._sim_seen = True
                t = None
                if st["quiescent"] > 1:
                    new_unowned.append(fresh)
    late = new_unowned[1:]
    if sum(f > 0 for f in late) >= 3 and sum(f > 0 for f in late) * 2 >= len(late):
        raise Violation("retained", f"new tensors that belong to nobody stay alive after passes: {new_unowned}")
    res.nontrivial = steps >= 8
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]))

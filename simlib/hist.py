"""Training histories as event lists, and the interpreter that drives any trainer-like object with them."""
import hashlib

from . import compare, nets


def gen_passes(r, steps, p_eval=0.25, p_multi=0.3, p_interleave=0.4, p_retain=0.1, p_fwdonly=0.1, p_nozero=0.1,
               via_model=0.4, p_evalmode=0.06, p_clip=0.0, zero_where=None, multi_scale=None, flags=None, evals=("nograd", "evalmode", "fwdonly", "infer")):
    """Flat event list of ``steps`` optimizer steps."""
    ev = []
    zw = zero_where or r.choice(["before", "after", "before", "both"])
    cnt = 0
    for t in range(steps):
        def maybe_eval():
            if r.random() < p_eval:
                ev.append({"e": "eval", "seed": r.randrange(10**6), "n": r.choice([1, 2, 3]), "mode": r.choice(evals)})
        maybe_eval()
        if zw in ("before", "both") and not (t and r.random() < p_nozero):
            ev.append(zero(r, via_model))
        m = 1 if r.random() >= p_multi else r.choice([2, 2, 3])
        mult = 1.0 / m if multi_scale is None else multi_scale(m)
        slots = []
        pend = []
        for j in range(m):
            cnt += 1
            s = f"s{cnt}"
            f = {"e": "fwd", "slot": s, "seed": r.randrange(10**6), "mult": float(f"{mult:.4g}")}
            if flags is not None:
                f["flags"] = flags(t, j)
            if r.random() < p_evalmode:  # e.g. fine-tuning with frozen normalization statistics
                f["evalmode"] = True
            slots.append(s)
            if m > 1 and r.random() < p_interleave:
                ev.append(f)
                pend.append(s)
            else:
                ev.append(f)
                maybe_eval()
                if r.random() < p_retain:
                    ev.append({"e": "bwd", "slot": s, "retain": True})
                ev.append({"e": "bwd", "slot": s})
        r.shuffle(pend)
        for s in pend:
            maybe_eval()
            ev.append({"e": "bwd", "slot": s})
        if r.random() < p_fwdonly:
            cnt += 1
            ev.append({"e": "fwd", "slot": f"s{cnt}", "seed": r.randrange(10**6), "mult": 1.0})
            ev.append({"e": "drop", "slot": f"s{cnt}"})
        maybe_eval()
        ev.append({"e": "step"})
        if p_clip and r.random() < p_clip:
            ev[-1]["clip"] = r.choice([0.01, 0.1, 1.0, 100.0])
        if zw in ("after", "both") and r.random() >= p_nozero:
            ev.append(zero(r, via_model))
    return ev


def vary(r, ev, spec, p=0.25, single=True, cfg=None, empty=False):
    """Passes with another batch size, other input sizes, other memory layouts, or without batch axis."""
    size, single = nets.sizes(spec), single and nets.batchless(spec)
    if r.random() < 0.4 and not empty:
        return ev
    for e in ev:
        if e["e"] != "fwd" or r.random() >= p:
            continue
        v = {}
        if r.random() < 0.6:
            v["n"] = r.choice([1, 1, 2, 3, 5, 8] + ([0] * 8 if empty else []))
        if size and r.random() < 0.5:
            v["size"] = [a + r.choice([0, 0, 1, 2]) for a in size]
        if r.random() < 0.4:
            v["layout"] = r.choice(["strided", "transposed", "expand", "channels_last"])
        if single and r.random() < 0.25:
            v.update(n=1, single=True)
        if v:
            e["var"] = v
    return ev


def note(st, ev):
    st["ev_" + ("retain" if ev.get("retain") else ev["e"])] += 1
    for k in ev.get("var") or {}:
        st["varied_" + k] += 1
        st["empty_batch"] += k == "n" and not ev["var"][k]


def zero(r, via_model=0.4):
    return {"e": "zero", "none": r.random() < 0.7, "via": "model" if r.random() < via_model else "opt"}


class Guard:
    """Decides, once for all trainers, whether an event is legal at this point (events may have been removed)."""

    def __init__(self, scaled=False):
        self.slots, self.have_grad = {}, False
        self.stepno = 0
        # with a GradScaler, step() un-scales gradients in place (as for every PyTorch optimizer):
        # nothing may be added to them, and no second step taken, before zero_grad
        self.scaled, self.spent = scaled, False
        self.dirty = False  # abandoned passes: the user must call the optimizer's zero_grad first

    def ok(self, ev):
        e = ev["e"]
        if e == "fwd":
            self.slots[ev["slot"]] = self.stepno
            return True
        if e == "bwd":
            if self.slots.get(ev["slot"]) != self.stepno:
                self.slots.pop(ev["slot"], None)
                return False
            if self.spent or self.dirty:
                return False
            if not ev.get("retain"):
                self.slots.pop(ev["slot"])
            self.have_grad = True
            return True
        if e == "drop":
            return self.slots.pop(ev["slot"], None) is not None
        if e == "zero":
            self.have_grad = self.spent = False
            if ev.get("via", "opt") == "opt":
                self.dirty = False
            return True
        if e == "abandon":
            self.dirty = True
            return True
        if e == "step":
            if not self.have_grad or self.spent or self.dirty:
                return False
            self.spent = self.scaled
            self.stepno += 1
            return True
        return True


def apply(tr, ev, n):
    """Apply one (legal) event to a trainer."""
    e = ev["e"]
    if e == "fwd":
        tr.forward(ev["slot"], ev["seed"], ev.get("n", n), ev.get("flags"), ev.get("mult", 1.0),
                   ovf=ev.get("ovf"), **{k: ev[k] for k in ("evalmode", "var") if ev.get(k)})
    elif e == "bwd":
        tr.backward(ev["slot"], ev.get("retain", False))
    elif e == "drop":
        tr.slots.pop(ev["slot"], None)
    elif e == "zero":
        tr.zero_grad(ev.get("none", True), ev.get("via", "opt"))
    elif e == "step":
        return tr.step(**({"clip": ev["clip"]} if ev.get("clip") else {}))
    elif e == "eval":
        tr.evaluate(ev["seed"], ev["n"], ev["mode"], ev.get("flags"))
    else:
        raise KeyError(e)


def refs_first(cfg, refs, ev):
    """Low precision: numbers of a diverging run exceed the range of float16; the reference tells before the system fails."""
    if not (cfg.get("low") and ev["e"] == "step"):
        return False
    for ref in refs:
        apply(ref, ev, cfg["n"])
    return True


class Judge:
    """Compares system against reference(s) after steps, with the tolerances of DESIGN.md section 1."""

    def __init__(self, cfg, res, f64_tol=1e-6, f32_tol=3e-4, limit=1e2):
        self.f64 = cfg["dtype"] == "f64"
        self.res, self.f64_tol, self.f32_tol, self.limit = res, f64_tol, f32_tol, limit
        self.compared = 0
        self.stopped = False
        self.worst = 0.0
        self.est = 0.0
        self.errs = {}
        from .refopt import EPS
        self.eps = max(EPS[d or cfg["dtype"]] for g in cfg["groups"] for d in g["hp"]["preconditioner_dtype"])

    def diverged(self, ref):
        """Before a low-precision step of the system."""
        if self.stopped or not compare.sane(ref.obs(), 30):
            self.res.stats["cut_off_exploding"] += not self.stopped
            self.stopped = True
        return self.stopped

    def check_low(self, what, sys_obs, ref_obs, noisy):
        """Low-precision pre-conditioners: tolerance from references with random errors of the size of rounding errors."""
        from .core import Violation
        if self.stopped:
            return False
        if not compare.sane(ref_obs, 30):
            self.stopped = True
            self.res.stats["cut_off_exploding"] += 1
            return False
        for k in ref_obs:
            e = max(compare.diff(o, ref_obs, [k])[0] for o in noisy)
            self.errs[k] = max(self.errs.get(k, 0.0), e)
        if max(self.errs.values()) > 0.015:
            self.stopped = True
            self.res.stats["cut_off_ill_conditioned"] += 1
            return False
        for k in ref_obs:
            tol = 15 * self.errs[k] + 4 * self.eps
            d, _ = compare.diff(sys_obs, ref_obs, [k])
            self.worst = max(self.worst, d / tol)
            if d > tol:
                raise Violation("mismatch", f"{what}: {k} differs by {d:.3g} (relative, tolerance {tol:.1g}, low precision)")
        self.compared += 1
        return True

    def check(self, what, sys_obs, ref_obs, ref32_obs=None, keys=None):
        from .core import Violation
        if self.stopped:
            return False
        if not compare.sane(ref_obs, self.limit):
            self.stopped = True
            self.res.stats["cut_off_exploding"] += 1
            return False
        if self.f64:
            tol = self.f64_tol
        else:
            e, _ = compare.diff(ref32_obs, ref_obs) if ref32_obs is not None else (1e-6, None)
            self.est = e = max(e, self.est)  # errors are inherited by later steps
            if not e < 3e-4:
                self.stopped = True
                self.res.stats["cut_off_ill_conditioned"] += 1
                return False
            tol = self.f32_tol + 100 * e
        d, w = compare.diff(sys_obs, ref_obs, keys)
        self.worst = max(self.worst, d / tol)
        self.compared += 1
        if d > tol:
            raise Violation("mismatch", f"{what}: {w} differs by {d:.3g} (relative, tolerance {tol:.1g})")
        return True


def sig(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:16]


def hp_class(hp):
    """Qualitative configuration: what counts as 'distinct'."""
    return (tuple(hp["structures"]), hp["T"], hp["momentum"] > 0, hp["alpha1"] > 0, hp["weight_decay"] > 0,
            hp["loss_average"], isinstance(hp["lr_cov"], dict), hp["kfac_approx"], hp["kfac_like"],
            hp["normalize_lr_cov"], tuple(str(x) for x in hp["preconditioner_dtype"]))


def net_class(spec):
    def f(ops):
        return tuple((o["op"], f(o["ops"]) if "ops" in o else o.get("bias")) for o in ops)
    return f(spec["ops"])


def cfg_sig(cfg):
    return (net_class(cfg["net"]), tuple(hp_class(g["hp"]) for g in cfg["groups"]), cfg["dtype"], cfg.get("params"))


def ev_sig(events):
    return tuple((e["e"], e.get("mode"), e.get("retain")) for e in events)


class Sim:
    """System + reference(s), driven by the same events, compared after every step."""

    def __init__(self, cfg, res, scaler=None, sched=None, ext=None, keys=None, compare_every=False, judge_kw=None,
                 system=None, clipped=False):
        # NOTE ``clipped``: a GradScaler un-scales gradients with a float32 factor, also float64 gradients
        import torch

        from . import trainer
        self.cfg, self.res, self.scaler, self.sched = cfg, res, scaler, sched
        self.sys = trainer.Trainer(cfg, scaler=scaler, sched=sched) if system is None else system
        self.refs = [trainer.RefTrainer(cfg, self.sys)]
        if cfg.get("low"):
            self.refs += [trainer.RefTrainer(cfg, self.sys, noise=i) for i in range(3)]
        elif cfg["dtype"] != "f64" or (clipped and scaler):
            self.refs.append(trainer.RefTrainer(cfg, self.sys, dtype=torch.float32))
        if self.sys.sched is not None:
            self.sync_lr()
        self.judge = Judge(cfg, res, **(judge_kw or {}))
        self.judge.f64 &= not (clipped and scaler)
        self.guard = Guard(scaled=bool(scaler))
        self.ext = dict(ext or {})
        from . import events
        events.install(self)
        self.every = compare_every
        self.keys = keys
        self.warnings = []
        self.bwd = 0

    def run(self, events, after=None):
        for i, ev in enumerate(events):
            if not self.guard.ok(ev):
                continue
            if not self.one(i, ev):
                return False
            if after is not None:
                after(i, ev)
        return True

    def one(self, i, ev):
        st = self.res.stats
        note(st, ev)
        if ev["e"] in self.ext:
            self.ext[ev["e"]](ev)
        else:
            if ev["e"] == "step":
                if self.sys.scaler is not None:
                    for ref in self.refs:
                        ref.overflow = self.sys.grads_overflow()
                self.pre_step(i, ev)
            first = refs_first(self.cfg, self.refs, ev)
            if first and self.judge.diverged(self.refs[0]):
                return False
            out = apply(self.sys, ev, self.cfg["n"])
            for ref in [] if first else self.refs:
                apply(ref, ev, self.cfg["n"])
            if ev["e"] == "step":
                self.warnings = out
                if self.sys.sched is not None:
                    self.sync_lr()
                self.res.simtime += 1
                st["accumulated_step"] += self.bwd > 1
                self.bwd = 0
            self.bwd += ev["e"] == "bwd"
        if ev["e"] == "step" or self.every:
            return self.compare(f"after {ev['e']} (event {i}, step count {self.guard.stepno})")
        return True

    def pre_step(self, i, ev):
        pass

    def sync_lr(self):
        """The scheduler is torch's; the reference takes the learning rates it produced."""
        for ref in self.refs:
            for g, c in zip(self.sys.opt.param_groups, ref.ref.cfgs):
                c["lr"] = float(g["lr"])

    def compare(self, what, keys=None):
        o = self.sys.obs()
        self.res.note_obs(o)
        if self.cfg.get("low"):
            return self.judge.check_low(what, o, self.refs[0].obs(), [r.obs() for r in self.refs[1:]])
        return self.judge.check(what, o, self.refs[0].obs(), self.refs[1].obs() if len(self.refs) > 1 else None,
                                keys or self.keys)

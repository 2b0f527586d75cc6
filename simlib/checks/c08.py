"""C08: crash and restart from a checkpoint continues the same run."""
from .. import disk as D
from .. import env, faults, hist, trainer, twin
from .. import events as E
from .. import gen as G
from ..core import Crash, Result, SutError, Violation
from ..rng import rng

PROP = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 24000}
TIME_UNIT = "optimizer steps"
HASH_TWINS = {"quick": 60, "thorough": 2000}
HASH_CHAIN = True  # the second process continues what the first one saved
RULE = ("some scenarios continue in a second real process with another Python hash seed; "
        "a training history (several groups, accumulation, evaluation, scaler with overflow, LR scheduler, hyper-parameter "
        "changes, mixed pre-conditioner data types) with checkpoints at random events, also between backward passes and step; "
        "1-4 process deaths at random events, tensor operations or chunks of a checkpoint write; only the simulated disk "
        "(unsynced data and renames lost, torn or kept; full disk) survives; the new process may pass other hyper-parameters "
        "to the constructor; twin run without crashes; non-trivial: a crash whose restart found a checkpoint and two steps "
        "compared afterwards; distinct: network, qualitative configuration, event kinds, crash points and disk outcomes")
COMPONENTS = {"real": ["singd.optim", "singd.structures", "torch.save/torch.load", "torch.amp.GradScaler",
                       "torch.optim.lr_scheduler"],
              "stub": ["disk (simlib.disk.Disk)", "process death (exception nobody handles, library state reset)"],
              "oracle": ["the same history without crashes, bit by bit; rounding judged by refopt.RefOpt if it differs"]}
ASSUMPTIONS = ["the user also saves the gradients if a checkpoint lies between backward and step",
               "the restarted process builds the same model and groups in the same order",
               "a checkpoint with a user-defined lr_cov callable is read with weights_only=False"]
PROBES = ["crash_event", "crash_op", "crash_save", "restored", "from_scratch", "fell_back", "disk_torn", "disk_lost",
          "disk_kept", "disk_full", "disk_rename_lost", "mid_accumulation_checkpoint", "pending_forward", "other_hp",
          "bitwise_equal", "crash_in_step", "crash_in_restore", "skipped"]

LOWP = [None, None, None, "f32", "bf16", "f16"]


def gen(r, tier):
    cfg = G.gen_cfg(r, mix=0.15, ckpt=0.12, n_groups=r.choice([1, 1, 2]), net_kw={"max_layers": 3})
    for g in cfg["groups"]:
        if r.random() < 0.2:
            for i in (0, 1):
                d = r.choice(LOWP)
                ok = d is None or d == "f32" or g["hp"]["structures"][i] in ("dense", "diagonal", "triltoeplitz", "triutoeplitz")
                if ok:
                    g["hp"]["preconditioner_dtype"][i] = d
                    if d in ("bf16", "f16"):
                        g["hp"]["lr_cov"] = 0.05
    scaler = None
    if r.random() < 0.35:
        scaler = {"init_scale": 2.0 ** r.randint(0, 10), "growth_interval": r.choice([1, 2, 3])}
    cfg["init_grad_scale"] = r.choice([1.0, scaler["init_scale"]]) if scaler else 1.0
    ev = hist.gen_passes(r, r.randint(3, 8), p_eval=0.15, p_multi=0.35, p_retain=0.05, p_fwdonly=0.05,
                         zero_where=r.choice(["before", "after"]), p_nozero=0.0 if scaler else 0.1,
                         via_model=r.choice([0.0, 0.0, 0.7]) if not scaler else 0.0)
    hist.vary(r, ev, cfg["net"], 0.15, cfg=cfg)
    out = []
    p_ovf = r.choice([0.0, 0.2]) if scaler else 0.0
    p_save = r.choice([0.08, 0.15, 0.3])
    p_hp = r.choice([0.0, 0.1])
    for e in ev:
        if e["e"] == "fwd" and r.random() < p_ovf:
            e["ovf"] = {"kind": "loss", "val": float("inf")}
        out.append(e)
        if e["e"] == "step" and r.random() < p_hp:
            k = r.choice(["lr", "weight_decay", "momentum", "damping", "T"])
            v = {"lr": G.u(r, 0.02, 0.2), "weight_decay": r.choice([0.0, 0.1]), "momentum": r.choice([0.5, 0.8]),
                 "damping": G.u(r, 0.02, 0.5), "T": r.choice([1, 2, 3])}[k]
            out.append({"e": "hp", "group": r.randrange(len(cfg["groups"])), "key": k, "val": v})
        if r.random() < p_save:
            s = {"e": "save", "proto": r.choice(["atomic", "atomic", "plain", "plain_sync"])}
            if r.random() < 0.1:
                s["full"] = float(f"{r.random():.2f}")
            out.append(s)
    n = len(out)
    crashes = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        crashes.append({"at": r.randrange(max(1, n // 4), n + n // 4), "frac": float(f"{r.random():.3f}"),
                        "how": r.choice(["op", "op", "event"]), "restore": r.random() < 0.1})
    for i, e in enumerate(out):  # crashes while a checkpoint is written
        if e["e"] == "save" and r.random() < 0.2:
            crashes.append({"at": i, "frac": float(f"{r.random():.3f}"), "how": "op", "restore": False})
    crashes.sort(key=lambda c: c["at"])
    groups2 = None
    if r.random() < 0.4:
        groups2 = []
        for g in cfg["groups"]:
            h = G.gen_hp(r, structs=g["hp"]["structures"], avg=g["hp"]["loss_average"] or "none")
            for k in ("preconditioner_dtype",):
                h[k] = list(g["hp"][k])
            groups2.append({**g, "hp": h})
    sched = r.choice([None, None, {"kind": "exp", "g": 0.8}, {"kind": "step", "n": 2, "g": 0.5}, {"kind": "cos", "n": 6},
                      {"kind": "warm", "n": 3}])
    return {"cfg": cfg, "events": out, "scaler": scaler, "sched": sched, "faults": crashes, "groups2": groups2,
            "disk": r.randrange(10**6)}


class Shim:
    """What simlib.events need."""

    def __init__(self, sys, cfg, res):
        self.sys, self.refs, self.cfg, self.res = sys, [], cfg, res


def act(sim, ev):
    if ev["e"] == "hp":
        E.hp(sim, ev)
    else:
        hist.apply(sim.sys, ev, sim.cfg["n"])


def hash_halves(scn):
    """The history without checkpoints and crashes, cut after a step."""
    ev = twin.legalise([e for e in scn["events"] if e["e"] != "save"], bool(scn["scaler"]))
    at = [i + 1 for i, e in enumerate(ev) if e["e"] == "step"]
    k = at[len(at) // 2 - 1] if len(at) > 1 else len(ev)
    return ev[:k], ev[k:]


def hash_second(scn, got):
    """Continue from the checkpoint of another process (or run it all)."""
    t = trainer.Trainer(scn["cfg"], scaler=scn["scaler"], sched=scn["sched"], groups=scn["groups2"] if got else None)
    s = Shim(t, scn["cfg"], Result())
    head, tail = hash_halves(scn)
    blob = None
    if got:
        t.restore(trainer.from_bytes(got["blob"], False))
    else:
        for ev in head:
            act(s, ev)
        blob = trainer.to_bytes(t.checkpoint(with_grads=True))
    obs = [t.obs()]
    for ev in tail:
        act(s, ev)
        if ev["e"] == "step":
            obs.append(t.obs())
    return {"blob": blob, "obs": obs}


def hash_first(scn):
    return hash_second(scn, None)


def hash_compare(scn, a, b):
    low = any(d in ("bf16", "f16", "f32") for g in scn["cfg"]["groups"] for d in g["hp"]["preconditioner_dtype"])
    head, tail = hash_halves(scn)
    n = sum(e["e"] == "step" for e in head)
    pair = twin.Pair(Result(), twin.Rounding(scn["cfg"], head + tail, scn["scaler"], scn["sched"], low=low))
    for k, (x, y) in enumerate(zip(b["obs"], a["obs"])):
        pair.check(f"{k} steps after restoring the checkpoint", x, y, n + k)


def run(scn, res):
    cfg, st = scn["cfg"], res.stats
    plain = twin.legalise([e for e in scn["events"] if e["e"] != "save"], bool(scn["scaler"]))
    ids = {id(e) for e in plain}
    events = [e for e in scn["events"] if e["e"] == "save" or id(e) in ids]

    low = any(d in ("bf16", "f16", "f32") for g in cfg["groups"] for d in g["hp"]["preconditioner_dtype"])

    # the undisturbed run
    a = Shim(trainer.Trainer(cfg, scaler=scn["scaler"], sched=scn["sched"]), cfg, res)
    want, n_ops, steps_at = [a.sys.obs()], {}, []
    n_step = 0
    for ev in events:
        steps_at.append(n_step)
        if ev["e"] == "save":
            continue
        if ev["e"] == "step":
            st["skipped"] += bool(a.sys.scaler is not None and a.sys.grads_overflow())
        try:
            with faults.OpCounter() as c:
                act(a, ev)
        except SutError as e:
            if low and "without overflow" in str(e):  # a statistic exceeds the range of float16: diverging run
                st["cut_off"] += 1
                return
            raise
        n_ops[ev["e"]] = max(c.n, n_ops.get(ev["e"], 0))
        if ev["e"] == "step":
            n_step += 1
            want.append(a.sys.obs())
            res.note_obs(want[-1])
    pair = twin.Pair(res, twin.Rounding(cfg, plain, scn["scaler"], scn["sched"], low=low))

    # the run with crashes
    d = D.Disk(rng("disk", scn["disk"]))
    crashes = list(scn["faults"])
    executed, saves = 0, 0
    wo = [None]
    after_restore = 0

    def boot():
        """A new process: build everything, load the newest readable checkpoint."""
        env.reset_process()
        t = trainer.Trainer(cfg, scaler=scn["scaler"], sched=scn["sched"],
                            groups=scn["groups2"] if booted else None)
        pos, tried = 0, 0
        for name in sorted((n for n in d.ls() if n.startswith("ckpt")), reverse=True):
            try:
                c = trainer.from_bytes(d.read(name), wo[0])
            except SutError as e:
                if len(d.read(name)) == sizes[name]:
                    raise Violation("unreadable", f"complete checkpoint {name}: {str(e)[:300]}") from None
                tried += 1
                continue
            t.restore(c["state"])
            pos = c["pos"]
            s = Shim(t, cfg, res)
            for j in c["pending"]:  # forward passes of the iteration in progress
                act(s, events[j])
                st["pending_forward"] += 1
            st["restored"] += 1
            st["fell_back"] += tried > 0
            st["other_hp"] += scn["groups2"] is not None
            n = steps_at[pos] if pos < len(events) else n_step
            if int(t.opt.steps) != n:
                raise Violation("steps", f"{t.opt.steps} steps after restoring a checkpoint of step {n}")
            pair.check(f"after restart at event {pos}", t.obs(), want[n], n)
            return t, pos, True
        if scn["groups2"] is not None and booted:  # nothing on disk: the original program starts over
            t = trainer.Trainer(cfg, scaler=scn["scaler"], sched=scn["sched"])
        st["from_scratch"] += booted
        return t, 0, False

    def save(ev, pos, sim, pending, on_chunk):
        nonlocal saves
        saves += 1
        if any(callable(g["lr_cov"]) for g in sim.sys.opt.param_groups):
            wo[0] = False
        grads = any(p.grad is not None for p in sim.sys.model.parameters())
        st["mid_accumulation_checkpoint"] += bool(grads and sim.sys.opt.H_Ks)
        blob = trainer.to_bytes({"pos": pos, "pending": list(pending), "state": sim.sys.checkpoint(with_grads=True)})
        name = f"ckpt-{saves:04d}"
        sizes[name] = len(blob)
        fault = ("full", ev["full"]) if "full" in ev else None
        try:
            if ev["proto"] == "atomic":
                d.write("tmp", blob, fault=fault, on_chunk=on_chunk)
                d.fsync("tmp")
                d.rename("tmp", name)
                d.sync_dir()
            else:
                d.write(name, blob, fault=fault, on_chunk=on_chunk)
                if ev["proto"] == "plain_sync":
                    d.fsync(name)
                    d.sync_dir()
        except D.DiskFull:
            d.unlink("tmp")
            d.unlink(name)

    sizes = {}
    booted = False
    t, pos, _ = boot()
    booted = True
    sim = Shim(t, cfg, res)
    pending = {}
    n_crash = 0
    crash_sig = []
    while pos < len(events):
        ev = events[pos]
        c = crashes[0] if crashes and crashes[0]["at"] <= executed else None
        if c is not None:
            crashes.pop(0)
        executed += 1
        try:
            if c is not None and c["how"] == "event":
                st["crash_event"] += 1
                raise Crash
            if ev["e"] == "save":
                def on_chunk(j, k, c=c):
                    if c is not None and j == int(c["frac"] * k):
                        st["crash_save"] += 1
                        raise Crash
                save(ev, pos + 1, sim, [j for _, j in sorted(pending.items(), key=lambda x: x[1])], on_chunk)
            else:
                at = None if c is None else int(c["frac"] * n_ops.get(ev["e"], 1))
                with faults.OpCounter(at, "crash") as oc:
                    act(sim, ev)
                if c is not None and not oc.fired:
                    raise Crash
        except BaseException as e:
            while isinstance(e, SutError):
                e = e.__cause__
            if not (isinstance(e, Crash) or (c is not None and "process died" in str(e))):
                raise
            n_crash += 1
            st["crash_op"] += c["how"] == "op" and ev["e"] != "save"
            st["crash_in_step"] += ev["e"] == "step"
            crash_sig.append((ev["e"], c["how"]))
            del sim, t
            d.crash()
            if c["restore"]:  # dies again while restoring
                st["crash_in_restore"] += 1
                try:
                    with faults.OpCounter(int(c["frac"] * 40), "crash"):
                        boot()
                except BaseException as e2:
                    while isinstance(e2, SutError):
                        e2 = e2.__cause__
                    if not (isinstance(e2, Crash) or "process died" in str(e2)):
                        raise
            t, pos, ok = boot()
            sim = Shim(t, cfg, res)
            pending = {}
            for j in range(pos):
                track(events[j], j, pending)
            after_restore = 0 if ok else -10**6
            continue
        track(ev, pos, pending)
        pos += 1
        if ev["e"] == "step":
            n = steps_at[pos] if pos < len(events) else n_step
            res.simtime += 1
            if int(sim.sys.opt.steps) != n:
                raise Violation("steps", f"{sim.sys.opt.steps} steps instead of {n}")
            o = sim.sys.obs()
            res.note_obs(o)
            if n_crash:
                after_restore += pair.check(f"step {n} after {n_crash} crashes", o, want[n], n)
    st["bitwise_equal"] += pair.compared > 0 and st["not_bitwise_equal"] == 0
    for k, v in d.stats.items():
        st[k] += v
    res.nontrivial = after_restore >= 2
    res.sig = hist.sig(hist.cfg_sig(cfg), hist.ev_sig(scn["events"]), crash_sig, sorted(d.stats.items()))


def track(ev, j, pending):
    if ev["e"] == "fwd":
        pending[ev["slot"]] = j
    elif ev["e"] == "bwd" and not ev.get("retain") or ev["e"] == "drop":
        pending.pop(ev["slot"], None)
    elif ev["e"] == "step":
        pending.clear()

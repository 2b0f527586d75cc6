"""Scenario generation: networks, configurations, event lists. Pure functions of a ``random.Random``."""
import json

from . import nets
from .rng import rng

STRUCTS = ["dense", "diagonal", "block30diagonal", "hierarchical15_15", "triltoeplitz", "triutoeplitz"]
F64_OK = {"dense", "diagonal"}


def pick(r, **w):
    ks = list(w)
    return r.choices(ks, [w[k] for k in ks])[0]


def dim(r, big):
    """Layer width: mostly tiny; with ``big`` around the block boundaries 15, 30."""
    if big and r.random() < 0.6:
        return r.choice([13, 14, 15, 16, 17, 28, 29, 30, 31, 33])
    return r.choice([1, 2, 2, 3, 3, 4, 5, 6])


class NetGen:
    def __init__(self, r, smooth=True, big=False, inplace=False, ln=0.15, reuse=0.15, res=0.15, branch=0.0, ckpt=0.0,
                 max_layers=3, kinds=("mlp", "seq", "conv"), linear_out=True, dropout=0.0, bias_p=0.65):
        self.r, self.smooth, self.big, self.inplace = r, smooth, big, inplace
        self.p = dict(ln=ln, reuse=reuse, res=res, branch=branch, ckpt=ckpt, dropout=dropout, bias=bias_p)
        self.max_layers, self.kinds = max_layers, kinds
        self.n = 0

    def name(self, pre):
        self.n += 1
        return f"{pre}{self.n}"

    def act(self):
        f = self.r.choice(nets.SMOOTH if self.smooth else nets.SMOOTH + nets.KINKED * 3)
        return {"op": "act", "name": self.name("a"), "f": f, "inplace": bool(self.inplace and self.r.random() < 0.6)}

    def linear(self, din, dout):
        o = {"op": "linear", "name": self.name("l"), "din": din, "dout": dout, "bias": self.r.random() < self.p["bias"]}
        return self.keyword(o)

    def keyword(self, o):
        """Some layers are called with a keyword argument."""
        if self.r.random() < 0.06:
            o["kw"] = True
        return o

    def vec_block(self, d, allow=True):
        """Ops on [..., d]; returns ops, new d."""
        r, ops = self.r, []
        if allow and d >= 3 and r.random() < self.p["ln"]:
            ops.append({"op": "ln", "name": self.name("n"), "d": d})
        u = r.random()
        if allow and u < self.p["reuse"] and d <= 20:
            l = self.linear(d, d)
            ops += [l, self.act(), {"op": "again", "name": l["name"]}]
            return ops, d
        u -= self.p["reuse"]
        if allow and 0 <= u < self.p["res"] and d <= 20:
            ops.append({"op": "res", "clone": self.inplace, "ops": [self.linear(d, d), self.act()]})
            return ops, d
        u -= self.p["res"]
        if allow and 0 <= u < self.p["branch"] and d <= 20:
            ops.append({"op": "branch", "name": self.name("b"), "ops": [self.act_safe(), self.linear(d, d)]})
            return ops, d
        u -= self.p["branch"]
        dout = dim(r, self.big)
        body = [self.linear(d, dout), self.act()]
        if 0 <= u < self.p["ckpt"]:
            ops.append({"op": "ckpt", "reentrant": False, "ops": body})
        else:
            ops += body
        if r.random() < self.p["dropout"]:
            ops.append({"op": "dropout", "name": self.name("d"), "p": 0.3})
        return ops, dout

    def act_safe(self):
        a = self.act()
        a["inplace"] = False
        return a

    def conv(self, c, h, w):
        r = self.r
        for _ in range(50):
            k = [r.choice([1, 2, 3]), r.choice([1, 2, 3])]
            d = [r.choice([1, 1, 2]), r.choice([1, 1, 2])]
            s = [r.choice([1, 1, 2]), r.choice([1, 1, 2])]
            g = r.choice([1, 1, 1] + [x for x in range(2, c + 1) if c % x == 0]) if c > 1 else 1
            cout = g * r.choice([1, 2, 3]) if g > 1 else r.choice([1, 2, 3, 4])
            if self.big and g == 1 and r.random() < 0.3:
                cout = r.choice([15, 16, 17])
            p = [r.choice([0, 0, 1, 1, 2]), r.choice([0, 0, 1, 1, 2])]
            u = r.random()
            if u < 0.1:
                p = "valid"
            elif u < 0.25 and s == [1, 1] and all((dd * (kk - 1)) % 2 == 0 for dd, kk in zip(d, k)):
                p = "same"
            pp = (0, 0) if p == "valid" else ([dd * (kk - 1) // 2 for dd, kk in zip(d, k)] if p == "same" else p)
            o = [(x + 2 * q - dd * (kk - 1) - 1) // ss + 1 for x, q, dd, kk, ss in zip((h, w), pp, d, k, s)]
            # every location of the input must be reachable as singd's einconv index pattern assumes nothing else
            if min(o) >= 1 and all(q <= kk for q, kk in zip(pp, k)):
                op = {"op": "conv", "name": self.name("c"), "cin": c, "cout": cout, "k": k, "s": s, "p": p, "d": d,
                      "g": g, "bias": r.random() < self.p["bias"]}
                if max(pp) > 0 and r.random() < 0.25 and all(q < x for q, x in zip(pp, (h, w))):
                    op["pm"] = r.choice(["reflect", "replicate", "circular"])
                return self.keyword(op), cout, o[0], o[1]
        raise RuntimeError("no conv")

    def net(self):
        r = self.r
        kind = r.choice(self.kinds)
        ops = []
        n = r.randint(1, self.max_layers)
        if kind == "mlp":
            d = dim(r, self.big)
            inp = {"kind": "vec", "d": d}
            for _ in range(n):
                o, d = self.vec_block(d)
                ops += o
        elif kind == "seq":
            d = dim(r, self.big and r.random() < 0.5)
            s = [r.choice([1, 2, 3])] + ([2] if r.random() < 0.3 else [])
            inp = {"kind": "seq", "s": s, "d": d}
            pool = r.choice([None, None, 1])
            for i in range(n):
                o, d = self.vec_block(d)
                ops += o
                if pool is not None and i + 1 == pool:
                    ops.append({"op": "meanseq"})
        else:
            c, h, w = r.choice([1, 2, 3, 4]), r.choice([3, 4, 5]), r.choice([3, 4, 5])
            inp = {"kind": "img", "c": c, "h": h, "w": w}
            nc = r.choice([1, 1, 2])
            for _ in range(nc):
                o, c, h, w = self.conv(c, h, w)
                ops += [o, self.act()]
            end = r.choice(["flatten", "gap", "toseq", "img"])
            if end == "flatten" and c * h * w > 40:
                end = "gap"
            if end == "img":
                return {"input": inp, "ops": ops}
            ops.append({"op": end})
            d = c * h * w if end == "flatten" else c
            for _ in range(max(0, n - nc)):
                o, d = self.vec_block(d)
                ops += o
        if self.r.random() < 0.8 or not ops:
            ops.append(self.linear(d, dim(r, False)))
        return {"input": inp, "ops": ops}


def gen_net(r, **kw):
    while True:
        spec = NetGen(r, **kw).net()
        if nets.layer_ops(spec):
            return spec


def u(r, a, b):
    """log-uniform, rounded (short JSON)."""
    from math import exp, log
    return float(f"{exp(r.uniform(log(a), log(b))):.3g}")


def gen_hp(r, structs=None, avg=None, T=None, like=None):
    """Hyper-parameters of one group, amplified such that statistics matter."""
    s = structs or [r.choice(STRUCTS), r.choice(STRUCTS)]
    if avg is None:
        avg = r.choice([None, "batch", "batch", "batch+sequence"])
    avg = None if avg == "none" else avg
    like = (r.random() < 0.2) if like is None else like
    b = u(r, 0.05, 0.35)
    hp = {
        "lr": u(r, 0.02, 0.2),
        "momentum": r.choice([0.0, 0.0, 0.5, 0.9]),
        "damping": u(r, 0.02, 0.5),
        "alpha1": r.choice([0.0, 0.0, 0.3, 0.6]),
        "weight_decay": r.choice([0.0, 0.0, 0.05, 0.3]),
        "T": T or r.choice([1, 1, 2, 3]),
        "loss_average": avg,
        "lr_cov": b if r.random() < 0.7 else {"kind": r.choice(["ramp", "cycle"]), "a": b, "n": r.choice([2, 3, 5])},
        "structures": list(s),
        "kfac_approx": r.choice(["expand", "reduce"]),
        "kfac_like": like,
        "normalize_lr_cov": r.random() < 0.25,
        "preconditioner_dtype": [None, None],
    }
    return hp


def pick_structs(r, f64):
    if f64:
        return [r.choice(["dense", "dense", "diagonal"]), r.choice(["dense", "dense", "diagonal"])]
    s = [r.choice(STRUCTS), r.choice(STRUCTS)]
    return s


def mixed_averages(r, net, hp, f64, hp_kw):
    """Two groups of layers that see differently averaged losses: the gradient is re-scaled between them."""
    if hp["loss_average"] == "batch+sequence":
        return []
    cuts = []
    for i in range(1, len(net["ops"])):
        pre, post = ({"ops": net["ops"][:i]}, {"ops": net["ops"][i:]})
        a, b = list(nets.layer_ops(pre)), list(nets.layer_ops(post))
        if a and b and not any(o["op"] == "again" and o["name"] in a for o in nets._walk(post["ops"])):
            cuts.append((i, a, b))
    if not cuts:
        return []
    i, a, b = r.choice(cuts)
    mean = hp["loss_average"] is not None
    net["ops"].insert(i, {"op": "gscale", "kind": "sum" if mean else "mean"})
    other = gen_hp(r, structs=pick_structs(r, f64), avg="none" if mean else "batch",
                   **{k: v for k, v in hp_kw.items() if k != "avg"})
    return [{"layers": b, "hp": hp}, {"layers": a, "hp": other}]


def checkpointed(r, net):
    """Activation checkpointing of one or two pieces of the network."""
    for _ in range(r.choice([1, 1, 2])):
        ops = net["ops"]
        i = r.randrange(len(ops))
        j = r.randint(i + 1, len(ops))
        if not any("name" in o or "ops" in o for o in ops[i:j]):
            continue
        early = any(o["op"] in ("linear", "conv") for o in ops[:i])  # else, no input of the piece needs a gradient
        net["ops"] = ops[:i] + [{"op": "ckpt", "reentrant": early and r.random() < 0.5, "ops": ops[i:j]}] + ops[j:]


def variants(net):
    """More weight-sharing axes, layers of derived classes (decided by the network, not by the stream of random numbers)."""
    v = rng("variants", json.dumps(net, sort_keys=True))
    if net["input"]["kind"] == "seq" and v.random() < 0.2:
        net["input"]["s"] = net["input"]["s"] + [v.choice([1, 2])] * v.choice([1, 2])
    for o in nets.layer_ops(net).values():
        if v.random() < 0.1:
            o["derived"] = True


def gen_cfg(r, f64=None, n_groups=1, net_kw=None, hp_kw=None, big=None, structs=None, smooth=None, scale=None, mix=0.0,
            ckpt=0.0, root=0.1):
    """A complete trainer configuration."""
    if f64 is None:
        f64 = r.random() < 0.6
    s = structs or pick_structs(r, f64)
    sized = any(x in ("block30diagonal", "hierarchical15_15") for x in s)
    if big is None:
        big = r.random() < (0.6 if sized else 0.08)
    if smooth is None:
        smooth = not f64
    net = gen_net(r, smooth=smooth, big=big, **(net_kw or {}))
    variants(net)
    layers = list(nets.layer_ops(net))
    hp = gen_hp(r, structs=s, **(hp_kw or {}))
    groups = []
    if mix and r.random() < mix:
        groups = mixed_averages(r, net, hp, f64, hp_kw or {})
    if groups:
        pass
    elif n_groups == 1 or len(layers) == 1:
        groups = [{"layers": layers, "hp": hp}]
    else:
        k = min(n_groups, len(layers))
        assign = [i % k for i in range(len(layers))]
        r.shuffle(assign)
        for g in range(k):
            h = dict(hp) if g == 0 else gen_hp(r, structs=pick_structs(r, f64), avg=hp["loss_average"] or "none",
                                               **{a: b for a, b in (hp_kw or {}).items() if a not in ("avg",)})
            groups.append({"layers": [l for l, a in zip(layers, assign) if a == g], "hp": h})
    if ckpt and r.random() < ckpt:
        checkpointed(r, net)
    n = r.choice([1, 2, 3, 4, 6])
    at = None
    if r.random() < root:
        named = [o for o in nets._walk(net["ops"]) if o["op"] in ("linear", "conv", "ln", "bn")]
        at = "layer" if len(named) == 1 else r.choice(["layers", "outer"])
    return {
        "root": at, "net": net, "dtype": "f64" if f64 else "f32", "init": r.randrange(10**6), "n": n,
        "loss": r.choice(["mse", "mse", "ce"]),
        "scale": scale if scale is not None else u(r, 0.5, 2.0) * (1.0 if hp["loss_average"] else float(f"{1 / n:.3g}")),
        "xscale": u(r, 0.5, 1.3),
        "groups": groups, "aux_lr": 0.05, "init_grad_scale": 1.0, "params": "groups" if len(groups) > 1 else r.choice(
            ["none", "list", "groups", "generator"]),
    }


def low_precision(r, cfg):
    """Pre-conditioners in half precision, small enough steps that rounding errors do not dominate."""
    cfg["low"] = True
    for i, g in enumerate(cfg["groups"]):
        low = r.choice([["f16", "f16"], ["f16", "f16"], ["bf16", "bf16"], [None, "f16"], ["f16", None], ["f32", "f16"], ["bf16", "f16"],
                        ["f16", "bf16"]])
        g["hp"]["preconditioner_dtype"] = low
    cfg["xscale"] = min(cfg["xscale"], 1.0)
    return cfg

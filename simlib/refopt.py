"""Executable reference model of SINGD (no code of ``singd``): dense matrices, explicit projections.

Written from the update rule of the paper (arXiv 2312.05705, Fig. 3) and the docstrings of ``SINGD``.
"""
import torch
import torch.nn.functional as F

from . import nets


# ---------------------------------------------------------------- structure projections
def project(kind, M):
    """The structured matrix (as dense tensor) that stands for the symmetric matrix M."""
    n = M.shape[0]
    if kind == "dense":
        return M.clone()
    if kind == "diagonal":
        return torch.diag(M.diagonal())
    i = torch.arange(n)
    if kind == "block30diagonal":
        return M * ((i[:, None] // 30) == (i[None, :] // 30)).to(M.dtype)
    if kind == "hierarchical15_15":
        k1 = min(n, 15)
        k2 = min(n - k1, 15)
        mid = n - k1 - k2
        out = torch.zeros_like(M)
        out[:k1, :k1] = M[:k1, :k1]
        out[:k1, k1:] = 2 * M[:k1, k1:]
        for j in range(k1, k1 + mid):
            out[j, j] = M[j, j]
        out[k1 + mid:, k1:k1 + mid] = 2 * M[k1 + mid:, k1:k1 + mid]
        out[k1 + mid:, k1 + mid:] = M[k1 + mid:, k1 + mid:]
        return out
    if kind in ("triltoeplitz", "triutoeplitz"):
        out = torch.zeros_like(M)
        for d in range(n):
            v = M.diagonal(d).sum()
            if d:
                v = v + M.diagonal(-d).sum()
            v = v / (n - d)
            out = out + torch.diag(v.expand(n - d), -d if kind == "triltoeplitz" else d)
        return out
    raise KeyError(kind)


# ---------------------------------------------------------------- layer inputs and gradients
def patches(x, op):
    """[b, O1, O2, c_in/groups, k1, k2]: explicit slicing, averaged over channel groups."""
    b, c, _, _ = x.shape
    g = op["g"]
    x = x.reshape(b, g, c // g, *x.shape[2:]).mean(1)
    x, (p1, p2) = nets.pad_input(x, op)
    x = F.pad(x, (p2, p2, p1, p1))
    (k1, k2), (s1, s2), (d1, d2) = op["k"], op["s"], op["d"]
    o1 = (x.shape[2] - d1 * (k1 - 1) - 1) // s1 + 1
    o2 = (x.shape[3] - d2 * (k2 - 1) - 1) // s2 + 1
    out = x.new_zeros(b, o1, o2, c // g, k1, k2)
    for a in range(k1):
        for e in range(k2):
            out[..., a, e] = x[:, :, a * d1:a * d1 + (o1 - 1) * s1 + 1:s1,
                               e * d2:e * d2 + (o2 - 1) * s2 + 1:s2].permute(0, 2, 3, 1)
    return out


def layer_matrices(op, x, g, approx, avg):
    """A (rows: examples or examples x locations, normalised) and G (scaled) of one call of a layer."""
    if op["op"] == "linear":
        a = x.reshape(x.shape[0], x.shape[1:-1].numel(), x.shape[-1])
        gg = g.reshape(g.shape[0], g.shape[1:-1].numel(), g.shape[-1])
    else:
        a = patches(x, op)
        a = a.flatten(1, 2).flatten(2)
        gg = g.flatten(2).transpose(1, 2)
    n_b, n_s = a.shape[0], a.shape[1]
    if approx == "expand":
        a = a.flatten(0, 1)
        gg = gg.flatten(0, 1)
    else:
        a = a.mean(1)
        gg = gg.sum(1)
    if op["bias"]:
        a = torch.cat([a, a.new_ones(a.shape[0], 1)], 1)
    a = a / max(a.shape[0], 1) ** 0.5
    terms = {None: 1, "batch": n_b, "batch+sequence": n_b * n_s}[avg]
    return a, gg * terms**0.5


def avg_trace(M):
    return M.diagonal().mean()


# ---------------------------------------------------------------- the model
class RefOpt:
    """Same life cycle as the real trainer: forward, backward, zero_grad, step, skip."""

    def __init__(self, spec, params, group_of, cfgs, dtype=torch.float64, aux=None):
        """``params``: {name: tensor}; ``group_of``: {layer: group index}; ``cfgs``: list of group configs.

        ``aux``: {param name: lr} of parameters trained by plain SGD outside of SINGD.
        """
        self.spec, self.dtype = spec, dtype
        self.ops = nets.layer_ops(spec)
        self.p = {k: v.detach().cpu().to(dtype).clone() for k, v in params.items()}
        self.group_of = dict(group_of)
        self.cfgs = [dict(c) for c in cfgs]
        for c in self.cfgs:
            if c["kfac_like"]:
                c["alpha1"] = 0.0
        self.aux = dict(aux or {})
        self.K, self.C, self.mK, self.mC = {}, {}, {}, {}
        for name in self.group_of:
            dk, dc = self.dims(name)
            self.K[name] = torch.eye(dk, dtype=dtype)
            self.C[name] = torch.eye(dc, dtype=dtype)
            self.mK[name] = torch.zeros(dk, dk, dtype=dtype)
            self.mC[name] = torch.zeros(dc, dc, dtype=dtype)
        self.HK, self.HC = {}, {}
        self.grad = {}
        self.mom = {}
        self.steps = 0
        self.frozen = set()
        self.refreshes = []

    def cfg(self, layer):
        return self.cfgs[self.group_of[layer]]

    def pnames(self, layer):
        op = self.ops[layer]
        return ["layers." + layer + ".weight"] + (["layers." + layer + ".bias"] if op["bias"] else [])

    def dims(self, layer):
        op = self.ops[layer]
        w = self.p["layers." + layer + ".weight"]
        return w[0].numel() + (1 if op["bias"] else 0), w.shape[0]

    def rounders(self, layer):
        """Rounding of what is stored in the data types of K and C."""
        return (lambda x: x), (lambda x: x)

    # -- passes
    def forward(self, x, flags=None, grad=True):
        x = x.to(self.dtype)
        ps = {}
        for k, v in self.p.items():
            t = v.clone()
            if grad and k not in self.frozen:
                t.requires_grad_(True)
            ps[k] = t
        calls = []
        with torch.set_grad_enabled(grad):
            out = nets.functional(self.spec, ps, x, flags or {}, calls)
        return {"out": out, "calls": calls, "ps": ps, "step": self.steps}

    def backward(self, fw, loss):
        """Back-propagate ``loss`` (a function of fw["out"]); adds to gradients and statistics."""
        calls, ps = fw["calls"], fw["ps"]
        names = [k for k in ps if ps[k].requires_grad]
        outs = [c[2] for c in calls]
        req = [i for i, o in enumerate(outs) if o.requires_grad]
        gs = torch.autograd.grad(loss, [ps[k] for k in names] + [outs[i] for i in req], allow_unused=True,
                                 retain_graph=True)
        for k, g in zip(names, gs[:len(names)]):
            if g is not None:
                self.grad[k] = g if self.grad.get(k) is None else self.grad[k] + g
        for i, g in zip(req, gs[len(names):]):
            layer, x, _ = calls[i]
            if g is None or layer not in self.group_of:
                continue
            c = self.cfg(layer)
            if fw["step"] % c["T"] != 0:
                continue
            with torch.no_grad():
                self.add_statistics(layer, x.detach(), g.detach())

    def add_statistics(self, layer, x, g):
        c = self.cfg(layer)
        A, G = layer_matrices(self.ops[layer], x, g, c["kfac_approx"], c["loss_average"])
        qk, qc = self.rounders(layer)
        S = qk(qk(A) @ self.K[layer])
        R = qc(qc(G) @ self.C[layer])
        hk = qk(project(c["structures"][0], S.T @ S))
        hc = qc(project(c["structures"][1], R.T @ R))
        self.HK[layer] = hk if layer not in self.HK else qk(self.HK[layer] + hk)
        self.HC[layer] = hc if layer not in self.HC else qc(self.HC[layer] + hc)

    def zero_grad(self, set_to_none=True, via="opt"):
        self.grad = {k: (None if set_to_none or g is None else torch.zeros_like(g)) for k, g in self.grad.items()}
        if via == "opt":
            self.HK, self.HC = {}, {}

    def clip(self, c):
        """Scale the gradients of all trained parameters to norm at most ``c``."""
        ks = [k for l in self.group_of for k in self.pnames(l) if self.grad.get(k) is not None]
        norm = float(torch.stack([self.grad[k].norm() for k in ks]).norm())
        for k in ks:
            self.grad[k] = self.grad[k] * min(1.0, c / max(norm, 1e-30))

    # -- updates
    def skip(self):
        self.HK, self.HC = {}, {}
        self.steps += 1

    def step(self):
        with torch.no_grad():
            for layer in self.group_of:
                if all(self.grad.get(k) is None for k in self.pnames(layer)):
                    self.HK.pop(layer, None)
                    self.HC.pop(layer, None)
                    continue
                self.refresh(layer)
                self.update(layer)
            for k, lr in self.aux.items():
                if self.grad.get(k) is not None:
                    self.p[k] = self.p[k] - lr * self.grad[k]
        self.steps += 1

    def refresh(self, layer):
        c = self.cfg(layer)
        if self.steps % c["T"] != 0 or layer not in self.HK:
            return
        self.refreshes.append((self.steps, layer))
        HK, HC = self.HK.pop(layer), self.HC.pop(layer)
        K, C = self.K[layer], self.C[layer]
        qk, qc = self.rounders(layer)
        KK = qk(project(c["structures"][0], K.T @ K))
        CC = qc(project(c["structures"][1], C.T @ C))
        like = c["kfac_like"]
        a1 = c["alpha1"]
        sc = 0.5 * ((1 - a1) if c["normalize_lr_cov"] else 1.0)
        eK, eC = torch.eye(len(K), dtype=self.dtype), torch.eye(len(C), dtype=self.dtype)
        mK = sc * qk(qk(qk(qc((1.0 if like else avg_trace(HC)) * HK)) + c["damping"] * qc(1.0 if like else avg_trace(CC)) * KK) - eK)
        mC = sc * qc(qc(qc(qk((1.0 if like else avg_trace(HK)) * HC)) + c["damping"] * qk(1.0 if like else avg_trace(KK)) * CC) - eC)
        if a1 != 0:
            mK = qk(mK + a1 * self.mK[layer])
            mC = qc(mC + a1 * self.mC[layer])
            self.mK[layer], self.mC[layer] = mK, mC
        b = c["lr_cov"]
        b = b(self.steps) if callable(b) else b
        bK = bC = b
        if c["normalize_lr_cov"]:
            # largest entry of the *parametrised* matrix: all structures store their entries
            bK = b / max(1.0, float(mK.abs().max()))
            bC = b / max(1.0, float(mC.abs().max()))
        self.K[layer] = qk(K - bK * qk(K @ mK))
        self.C[layer] = qc(C - bC * qc(C @ mC))

    def natural_gradient(self, layer):
        names = self.pnames(layer)
        W = self.p[names[0]]
        g = self.grad.get(names[0])
        g = torch.zeros_like(W) if g is None else g
        mat = g.reshape(W.shape[0], -1)
        if len(names) == 2:
            gb = self.grad.get(names[1])
            gb = torch.zeros(W.shape[0], dtype=self.dtype) if gb is None else gb
            mat = torch.cat([mat, gb[:, None]], 1)
        K, C = self.K[layer], self.C[layer]
        qk, qc = self.rounders(layer)
        nat = qc(C @ qc(C.T @ qc(qk(qk(qk(mat) @ K) @ K.T))))
        res = [nat[:, :W[0].numel()].reshape(W.shape)]
        if len(names) == 2:
            res.append(nat[:, -1])
        return res

    def update(self, layer):
        c = self.cfg(layer)
        for k, d in zip(self.pnames(layer), self.natural_gradient(layer)):
            if self.grad.get(k) is None:
                continue
            d = d + c["weight_decay"] * self.p[k]
            if c["momentum"] != 0:
                m = self.mom.get(k)
                m = d if m is None else c["momentum"] * m + d
                self.mom[k] = m
                d = m
            self.p[k] = self.p[k] - c["lr"] * d

    def obs(self):
        o = {"p." + k: v for k, v in self.p.items()}
        for n in self.group_of:
            o["K." + n] = self.K[n]
            o["C." + n] = self.C[n]
            if self.cfg(n)["alpha1"] != 0:
                o["mK." + n] = self.mK[n]
                o["mC." + n] = self.mC[n]
        for k, v in self.mom.items():
            o["mom." + k] = v
        return {k: v.detach().clone() for k, v in o.items()}


EPS = {"bf16": 2.0**-8, "f16": 2.0**-11, "f32": 2.0**-24, "f64": 2.0**-53}


class NoisyRef(RefOpt):
    """The reference with random errors of the size of rounding errors: estimates what low precision does to a history."""

    def __init__(self, *a, low=None, seed=0, **k):
        super().__init__(*a, **k)
        self.low, self.gen = low, torch.Generator().manual_seed(seed)  # low: group index -> (eps of K, eps of C)

    def rounders(self, layer):
        def q(eps):
            def f(x):
                if not isinstance(x, torch.Tensor):
                    return x
                return x * (1 + eps * (2 * torch.rand(x.shape, generator=self.gen, dtype=x.dtype) - 1))
            return f
        a, b = self.low[self.group_of[layer]]
        return q(a), q(b)

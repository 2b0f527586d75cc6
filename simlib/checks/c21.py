"""C21: structured matrices behave like the dense matrices they stand for, through any history."""
import copy
import io
import random

import torch

from .. import env, faults, hist, sched
from ..core import SutError, Violation, sut
from ..env import SINGD_DIR
from .c13 import (CLASSES, DT, BlockDiagonalMatrixTemplate, DenseMatrix, DiagonalMatrix, HierarchicalMatrixTemplate, Naive,
                  RecursiveBottomLeftMatrixTemplate, RecursiveTopRightMatrixTemplate, TrilToeplitzMatrix,
                  TriuToeplitzMatrix)
from ..faults import is_injected

PROP = "C21"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 100000}
TIME_UNIT = "operations on structured matrices"
TECHNIQUE = ("deterministic simulation: seeded operation histories with aliasing operands, injected failures and preempted "
             "threads, refinement of an executable dense-matrix model")
RULE = ("1-3 simulated threads, each executing a random program over its own structured matrices and read-only matrices it "
        "shares with the others (all classes of the library, user-defined templates, nested recursive classes; float64, "
        "float32, bfloat16, float16; contiguous and strided storage): products, transposed products, sums, scaling, in-place "
        "updates, inner products, trace, norms, initialisation, copies and save/load, with operands that coincide or are "
        "results of earlier operations, and exceptions raised in the middle of an operation; after every operation all other "
        "matrices and tensors, and the results of earlier operations, must be bit-identical and the result must match a float64 "
        "dense model within a running error bound; non-trivial: >= 3 operations on results of earlier operations; distinct: program and interleaving")
COMPONENTS = {"real": ["singd.structures"], "stub": [], "oracle": ["dense float64 model with running error analysis"]}
ASSUMPTIONS = ["from_dense, the constructors and to_dense may share memory with their argument or matrix",
               "a matrix that is updated in place is not used by another thread at the same time",
               "the target of an in-place operation that failed half-way is not used again"]
PROBES = ["fault", "inplace", "alias", "half", "recursive", "threads", "preemption_points", "noncontiguous", "saved", "shared",
          "empty_tensor", "scribble"]

SMALL = [1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11]
BIG = {"Block30DiagonalMatrix": [29, 30, 31, 45, 61], "Hierarchical15_15Matrix": [14, 15, 16, 29, 30, 31, 33]}
MATRIX_OPS = ["matmul", "add", "mul", "from_inner", "from_inner0", "from_mat_inner", "from_inner2", "copy", "save", "from_dense"]
VALUE_OPS = ["matmat", "rmatmat", "trace", "fro", "inf", "dense"]
INPLACE = ["add_", "mul_", "diag_add_"]
INIT = ["eye", "zeros", "new"]


# ------------------------------------------------------------------ scenario
def gen_op(r, n_own, n_shared):
    kind = r.choice(["m", "m", "m", "v", "v", "i", "i", "n"])
    op = r.choice({"m": MATRIX_OPS, "v": VALUE_OPS, "i": INPLACE, "n": INIT}[kind])
    slots = n_own + n_shared
    e = {"op": op, "a": r.randrange(n_own) if op in INPLACE else r.randrange(slots), "b": r.randrange(slots),
         "dst": r.randrange(n_own), "k": r.choice([0.5, -1.0, 1.0, 2.0, 0.0, 0.3, 3]), "cols": r.choice([1, 1, 2, 2, 3, 3, 5, 5]),
         "scribble": r.random() < 0.3, "seed": r.randrange(10**6), "layout": r.choice(["plain", "plain", "t", "stride"])}
    if r.random() < 0.15:
        e["fault"] = {"at": r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), "exc": r.choice(["oom", "interrupt"])}
    return e


def gen(r, tier):
    name = r.choice(list(CLASSES))
    dim = r.choice(BIG[name]) if name in BIG and r.random() < 0.6 else r.choice(SMALL)
    dt = r.choice(["f64", "f32", "f32", "f32", "bf16", "f16"])
    shared = r.choice([0, 1, 2])
    ths = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        own = r.randint(1, 4)
        ths.append({"own": own, "events": [gen_op(r, own, shared) for _ in range(r.randint(4, 25))]})
    return {"cls": name, "dim": dim, "dtype": dt, "shared": shared, "seed": r.randrange(10**6), "threads": ths,
            "sched": r.randrange(10**9), "p_switch": r.choice([0.1, 0.5, 1.0]), "line": r.random() < 0.2}


def shrinks(scn):
    from ..core import ddmin_lists, jcopy
    for t in range(len(scn["threads"])):
        if len(scn["threads"]) > 1:
            c = jcopy(scn)
            del c["threads"][t]
            yield c
        for l in ddmin_lists(scn["threads"][t]["events"]):
            c = jcopy(scn)
            c["threads"][t]["events"] = l
            yield c
    for k in ("f64", "f32"):
        if scn["dtype"] != k:
            yield {**jcopy(scn), "dtype": k}


# ------------------------------------------------------------------ the dense model
def split(n, max_dims):
    a, c = max_dims
    return max(0, n - c) if a == float("inf") else min(a, n)


def project(cls, M):
    """The structured matrix of class ``cls`` that stands for the symmetric matrix M, as dense matrix."""
    n = M.shape[0]
    out = torch.zeros_like(M)
    if cls is DenseMatrix or cls.__name__ == "Naive":
        return M.clone()
    if cls is DiagonalMatrix:
        return M.diagonal().diag()
    i = torch.arange(n)
    if issubclass(cls, BlockDiagonalMatrixTemplate):
        return M * (i[:, None] // cls.BLOCK_DIM == i[None, :] // cls.BLOCK_DIM).to(M.dtype)
    if issubclass(cls, HierarchicalMatrixTemplate):
        k1 = min(n, cls.MAX_K1)
        s = n - min(n - k1, cls.MAX_K2)
        out[:k1, :k1] = M[:k1, :k1]
        out[:k1, k1:] = 2 * M[:k1, k1:]
        out[k1:s, k1:s] = M[k1:s, k1:s].diagonal().diag()
        out[s:, k1:s] = 2 * M[s:, k1:s]
        out[s:, s:] = M[s:, s:]
        return out
    if cls in (TrilToeplitzMatrix, TriuToeplitzMatrix):
        for d in range(n):
            v = M.diagonal(d).sum() + (M.diagonal(-d).sum() if d else 0)
            out += torch.diag((v / (n - d)).expand(n - d), -d if cls is TrilToeplitzMatrix else d)
        return out
    b = split(n, cls.MAX_DIMS)
    out[:b, :b] = project(cls.CLS_A, M[:b, :b])
    out[b:, b:] = project(cls.CLS_C, M[b:, b:])
    if issubclass(cls, RecursiveTopRightMatrixTemplate):
        out[:b, b:] = 2 * M[:b, b:]
    else:
        assert issubclass(cls, RecursiveBottomLeftMatrixTemplate)
        out[b:, :b] = 2 * M[b:, :b]
    return out


U = {"f64": 3e-16, "f32": 1.2e-7, "bf16": 8e-3, "f16": 1e-3}
TINY = {"f64": 1e-300, "f32": 1e-37, "bf16": 1e-37, "f16": 6e-8}
CAP = {"f64": 1e6, "f32": 1e6, "bf16": 1e4, "f16": 2e3}


class V:
    """A float64 value with a bound of the error of the system's value."""

    def __init__(self, v, e, fmt, n):
        self.v, self.e, self.fmt, self.n = v, e, fmt, n

    def round(self, mag, terms):
        """One more rounding of a sum of ``terms`` terms of total magnitude ``mag``."""
        self.e = self.e + U[self.fmt] * (terms + 2) * mag + TINY[self.fmt] * (terms + 2)
        return self

    def mm(self, o):
        w = V(self.v @ o.v, self.v.abs() @ o.e + self.e @ o.v.abs() + self.e @ o.e, self.fmt, self.n)
        return w.round(self.v.abs() @ o.v.abs(), self.v.shape[1] + 4)

    def t(self):
        return V(self.v.T, self.e.T, self.fmt, self.n)

    def proj(self, cls):
        m = project(cls, self.v.abs())
        return V(project(cls, self.v), project(cls, self.e), self.fmt, self.n).round(m, self.n)


def values(shape, seed, dt, sym=False):
    g = torch.Generator().manual_seed(seed)
    x = torch.randn(*shape, generator=g, dtype=torch.float64)
    if sym:
        x = (x + x.T) / 2
    return x.to(DT[dt])


def lay(x, layout):
    if layout == "t" and x.ndim == 2:
        return x.T.contiguous().T
    if layout == "stride":
        return torch.stack([x, x + 1], -1)[..., 0]
    return x


# ------------------------------------------------------------------ the system
class Slot:
    def __init__(self, m, v):
        self.m, self.v = m, v


def finger(m):
    return [(k, t.dtype, t.detach().clone()) for k, t in m.named_tensors()]


def same(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and x[1] == y[1] and x[2].shape == y[2].shape and bool(torch.equal(x[2], y[2])) for x, y in zip(a, b))


def make(scn, seed, layout):
    """A general matrix of the class: values as products and updates give them."""
    cls, n, dt = CLASSES[scn["cls"]], scn["dim"], scn["dtype"]
    m = cls.from_dense(values((n, n), seed, dt, sym=cls is not Naive))
    for j, (_, t) in enumerate(m.named_tensors()):
        t.data = lay(t.data.clone() if cls is Naive else values(t.shape, seed + 7919 * (j + 1), dt), layout)
    v = m.to_dense().to(torch.float64).clone()
    return Slot(m, V(v, torch.zeros_like(v), dt, n))


class Program:
    def __init__(self, scn, spec, shared, res, ident):
        self.scn, self.spec, self.shared, self.res, self.ident = scn, spec, shared, res, ident
        self.cls, self.n, self.dt = CLASSES[scn["cls"]], scn["dim"], scn["dtype"]
        self.own = [make(scn, scn["seed"] + 101 * ident + 13 * i, "plain") for i in range(spec["own"])]
        self.made = set()  # slots that hold results
        self.kept = []  # (matrix, operation, result, copy of it): tensors the user got and still uses
        self.useful = 0

    def slots(self):
        return self.own + self.shared

    def step(self, e):
        st, all_ = self.res.stats, self.slots()
        if e["a"] >= len(all_) or e["b"] >= len(all_) or e["dst"] >= len(self.own):
            return
        op = e["op"]
        inplace = op in INPLACE
        if inplace and e["a"] >= len(self.own):
            return
        A, B = all_[e["a"]], all_[e["b"]]
        X = lay(values((self.n, e["cols"]), e["seed"], self.dt), e["layout"])
        S = lay(values((self.n, self.n), e["seed"], self.dt, sym=True), e["layout"])
        want = self.model(op, A, B, X, S, e)
        if self.too_big(want):
            self.own[e["dst"]] = make(self.scn, e["seed"], e["layout"])
            self.made.discard(e["dst"])
            st["refilled"] += 1
            return
        before = [finger(s.m) for s in all_]
        tx, ts = X.clone(), S.clone()
        f = e.get("fault")
        c = faults.OpCounter(at=f["at"] if f else None, exc=f["exc"] if f else "oom")
        st[op] += 1
        st["no_columns"] += not e["cols"] and op in ("matmat", "rmatmat", "from_inner", "from_mat_inner")
        st["alias"] += e["a"] == e["b"]
        st["inplace"] += inplace
        st["shared"] += max(e["a"], e["b"]) >= len(self.own)
        failed = False
        try:
            with c:
                got = self.call(op, A.m, B.m, X, S, e)
        except BaseException as x:
            y = x.__cause__ if isinstance(x, SutError) and x.__cause__ is not None else x
            refused = isinstance(y, NotImplementedError) and self.dt == "f64"  # documented for double precision
            if not refused and not (c.fired and is_injected(y)):
                raise
            failed = True
            st["refused"] += refused
        self.res.simtime += 1
        if failed:
            st["fault"] += 1
        what = f"{self.scn['cls']}({self.n}, {self.dt}).{op}"
        if not torch.equal(tx, X) or not torch.equal(ts, S):
            raise Violation("argument", f"{what} changes the tensor it is given")
        for i, (s, b) in enumerate(zip(all_, before)):
            if inplace and i == e["a"]:
                continue
            if not same(finger(s.m), b):
                raise Violation("side effect", f"{what}{' that failed' if failed else ''} changes a matrix it must not change")
        for m, o, t, c_ in self.kept:
            if not torch.equal(t, c_) and not (inplace and m is A.m and o in ("dense", "trace")):
                raise Violation("side effect", f"{what} changes the result of an earlier {o}")
        if inplace:  # from here on they must not change any more
            self.kept = [(m, o, t, t.clone()) if m is A.m else (m, o, t, c_) for m, o, t, c_ in self.kept]
        if failed:
            if inplace:
                self.own[e["a"]] = make(self.scn, e["seed"], e["layout"])
            return
        if op in VALUE_OPS:
            self.compare(what, got, want)
            if e.get("scribble") and op in ("matmat", "rmatmat"):  # the user goes on with the result
                st["scribble"] += 1
                got.add_(1.0)
                if not torch.equal(tx, X) or any(not same(finger(s.m), b) for s, b in zip(all_, before)):
                    raise Violation("aliasing", f"the result of {what} shares memory with an operand")
            self.kept = (self.kept + [(A.m, op, got, got.clone())])[-4:]
            return
        if inplace:
            if got is not A.m:
                raise Violation("identity", f"{what} does not return the matrix")
            A.v = want
            self.check_matrix(what, A.m, want)
            self.useful += e["a"] in self.made
            return
        if type(got) is not self.cls:
            raise Violation("class", f"{what} returns {type(got).__name__}")
        if any(t.dtype != DT[self.dt] for _, t in got.named_tensors()):
            raise Violation("data type", f"{what} returns {[t.dtype for _, t in got.named_tensors()]}")
        self.check_matrix(what, got, want)
        self.useful += e["a"] in self.made or e["b"] in self.made
        self.own[e["dst"]] = Slot(got, want)
        self.made.add(e["dst"])

    @sut
    def call(self, op, a, b, X, S, e):
        k, cls = e["k"], self.cls
        if op == "matmul":
            return a @ b
        if op == "add":
            return a + b
        if op == "mul":
            return a * k
        if op == "from_inner":
            return a.from_inner(X)
        if op == "from_inner0":
            return a.from_inner()
        if op == "from_mat_inner":
            return cls.from_mat_inner(X) if e["cols"] % 2 else a.from_mat_inner(X)
        if op == "from_inner2":
            return a.from_inner2(S)
        if op == "from_dense":
            return cls.from_dense(S.clone())
        if op == "copy":
            return copy.deepcopy(a)
        if op == "save":
            self.res.stats["saved"] += 1
            f = io.BytesIO()
            torch.save(a, f)
            f.seek(0)
            return torch.load(f, weights_only=False)
        if op == "matmat":
            return a @ X
        if op == "rmatmat":
            return a.rmatmat(X)
        if op == "trace":
            return a.average_trace()
        if op == "fro":
            return a.frobenius_norm()
        if op == "inf":
            return a.infinity_vector_norm()
        if op == "dense":
            return a.to_dense()
        if op == "add_":
            return a.add_(b) if k == 1.0 and e["cols"] % 2 else a.add_(b, alpha=k)
        if op == "mul_":
            return a.mul_(k)
        if op == "diag_add_":
            return a.diag_add_(k)
        if op == "eye":
            return cls.eye(self.n, dtype=DT[self.dt])
        if op == "zeros":
            return cls.zeros(self.n, dtype=DT[self.dt])
        if op == "new":
            s = make(self.scn, e["seed"], e["layout"])
            self.res.stats["noncontiguous"] += e["layout"] != "plain"
            return s.m
        raise KeyError(op)

    def model(self, op, A, B, X, S, e):
        a, b, k, n, dt, cls = A.v, B.v, float(e["k"]), self.n, self.dt, self.cls
        x = V(X.to(torch.float64), torch.zeros(X.shape, dtype=torch.float64), dt, n)
        s = V(S.to(torch.float64), torch.zeros(S.shape, dtype=torch.float64), dt, n)
        I = torch.eye(n, dtype=torch.float64)
        Z = torch.zeros_like(I)
        if op == "matmul":
            return a.mm(b)
        if op in ("add", "add_"):
            k = 1.0 if op == "add" else k
            return V(a.v + k * b.v, a.e + abs(k) * b.e, dt, n).round(a.v.abs() + abs(k) * b.v.abs(), 2)
        if op in ("mul", "mul_"):
            return V(a.v * k, a.e * abs(k), dt, n).round((a.v * k).abs(), 1)
        if op == "diag_add_":
            return V(a.v + k * I, a.e, dt, n).round(a.v.abs() + abs(k) * I, 1)
        if op in ("from_inner", "from_inner0"):
            S_ = a.t() if op == "from_inner0" else a.t().mm(x)
            return S_.mm(S_.t()).proj(cls)
        if op == "from_mat_inner":
            return x.mm(x.t()).proj(cls)
        if op == "from_inner2":
            return a.t().mm(s).mm(a).proj(cls)
        if op == "from_dense":
            return s.proj(cls)
        if op in ("copy", "save", "dense"):
            return a
        if op == "matmat":
            return a.mm(x)
        if op == "rmatmat":
            return a.t().mm(x)
        if op == "trace":
            d = a.v.diagonal()
            return V(d.mean(), a.e.diagonal().mean(), dt, n).round(d.abs().mean(), n)
        if op == "fro":
            f = a.v.norm()
            w = V(f, a.e.norm(), dt, n).round(f, n * n)
            if dt == "f16":
                w.e = w.e + 3e-4 * n
            return w
        if op == "inf":
            return V(a.v.abs().max(), a.e.max(), dt, n).round(a.v.abs().max(), 1)
        if op == "eye":
            return V(I, Z, dt, n)
        if op == "zeros":
            return V(Z, Z.clone(), dt, n)
        if op == "new":
            return make(self.scn, e["seed"], e["layout"]).v
        raise KeyError(op)

    def too_big(self, w):
        if not w.v.numel():
            return False
        m = float(w.v.abs().max()) + float(w.e.max())
        return m * self.n > CAP[self.dt] or float(w.e.max()) > 0.2 * (1 + float(w.v.abs().max()))

    def check_matrix(self, what, m, want):
        self.compare(what, m.to_dense(), want)

    def compare(self, what, got, want):
        if got.shape != want.v.shape:
            raise Violation("shape", f"{what}: {tuple(got.shape)} instead of {tuple(want.v.shape)}")
        if got.dtype != DT[self.dt]:
            raise Violation("data type", f"{what} gives {got.dtype}")
        g = got.detach().to(torch.float64)
        bad = ~((g - want.v).abs() <= want.e)
        self.res.note(tuple(g.flatten()[:4].tolist()))
        if bool(bad.any()):
            d = (g - want.v).abs().masked_fill(~bad, -1).argmax()
            raise Violation("result", f"{what}: {float(g.flatten()[d]):.9g} instead of {float(want.v.flatten()[d]):.9g} "
                                      f"(error bound {float(want.e.flatten()[d]):.3g})")


def run(scn, res):
    st = res.stats
    st["half"] += scn["dtype"] in ("bf16", "f16")
    st["threads"] += len(scn["threads"]) > 1
    shared = [make(scn, scn["seed"] + 7 * i, "stride" if i else "plain") for i in range(scn["shared"])]
    progs = [Program(scn, t, shared, res, i) for i, t in enumerate(scn["threads"])]
    m = progs[0].own[0].m if progs else None
    st["recursive"] += hasattr(m, "_substructure_names")
    st["empty_tensor"] += m is not None and any(t.numel() == 0 for _, t in m.named_tensors())
    s = sched.Sched(random.Random(scn["sched"]), p_switch=scn["p_switch"], line_dir=SINGD_DIR if scn["line"] else None,
                    p_line=0.05)

    def body(p):
        def f(task):
            with faults.OpCounter(on_op=s.point):
                for e in p.spec["events"]:
                    p.step(e)
        return f
    for i, p in enumerate(progs):
        s.spawn(f"t{i}", body(p))
    grad = torch.is_grad_enabled()
    try:
        s.run()
    except sched.StepLimit as e:
        raise Violation("no progress", str(e)) from None
    finally:
        torch.set_grad_enabled(grad)
    if len(progs) > 1:
        st["preemption_points"] += s.n_points
    for p in progs:
        for slot in p.slots():
            p.compare("a matrix at the end", slot.m.to_dense(), slot.v)
    res.note(hist.sig(s.log))
    res.nontrivial = sum(p.useful for p in progs) >= 3
    res.sig = hist.sig(scn["cls"], scn["dim"], scn["dtype"], [[(e["op"], e["a"], e["b"], e["dst"], "fault" in e) for e in t["events"]]
                                                             for t in scn["threads"]], s.log if len(progs) > 1 else 0)

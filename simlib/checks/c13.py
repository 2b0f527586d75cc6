"""C13: all_reduce on a structured matrix reduces the whole matrix on all ranks."""
import torch
import torch.distributed as dist

from .. import hist
from ..core import Violation, sut
from ..env import SINGD_DIR  # noqa: F401  (sets up the process)
from ..job import Job

from singd.structures.base import StructuredMatrix  # noqa: E402
from singd.structures.blockdiagonal import (Block3DiagonalMatrix, Block30DiagonalMatrix,  # noqa: E402
                                            BlockDiagonalMatrixTemplate)
from singd.structures.dense import DenseMatrix  # noqa: E402
from singd.structures.diagonal import DiagonalMatrix  # noqa: E402
from singd.structures.hierarchical import (Hierarchical3_2Matrix, Hierarchical15_15Matrix,  # noqa: E402
                                           HierarchicalMatrixTemplate)
from singd.structures.recursive import (RecursiveBottomLeftMatrixTemplate, RecursiveTopRightMatrixTemplate)  # noqa: E402
from singd.structures.trilbottomrightdiag import TrilBottomRightDiagonalMatrix  # noqa: E402
from singd.structures.triltoeplitz import TrilToeplitzMatrix  # noqa: E402
from singd.structures.triltopleftdiag import TrilTopLeftDiagonalMatrix  # noqa: E402
from singd.structures.triubottomrightdiag import TriuBottomRightDiagonalMatrix  # noqa: E402
from singd.structures.triutoeplitz import TriuToeplitzMatrix  # noqa: E402
from singd.structures.triutopleftdiag import TriuTopLeftDiagonalMatrix  # noqa: E402

PROP = "C13"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
TIME_UNIT = "scheduling decisions"
RULE = ("1-4 simulated ranks, each with the same list of structured matrices (all classes of the library, user-defined "
        "templates, nested recursive classes) with rank-specific values, data types and memory layouts; random programs of "
        "all_reduce calls (default / sum / average, world or sub-group, blocking or asynchronous with handles waited for later "
        "and in any order), interleaved with in-place arithmetic on other matrices; random interleaving at every tensor "
        "operation and line, delayed completions per rank, stalls; buffers in flight are poisoned; non-trivial: >= 2 ranks and "
        "a collective; distinct: interleaving and program")
COMPONENTS = {"real": ["singd.structures"], "stub": ["torch.distributed (simulated collectives)"],
              "oracle": ["sum / mean of the dense matrices in float64"]}
ASSUMPTIONS = ["a matrix is not used between an asynchronous all_reduce and waiting for all its handles"]
PROBES = ["async", "subgroup", "noncontiguous", "empty_tensor", "recursive", "stalls", "half", "outsider_calls"]


class Block2(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 2
    WARN_NAIVE = False


class Hier12(HierarchicalMatrixTemplate):
    MAX_K1, MAX_K2 = 1, 2
    WARN_NAIVE = False


class Nested(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (float("inf"), 2)
    CLS_A, CLS_C = TrilBottomRightDiagonalMatrix, Block2
    WARN_NAIVE = False


class Nested2(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (3, float("inf"))
    CLS_A, CLS_C = Hier12, Nested
    WARN_NAIVE = False


class Naive(StructuredMatrix):
    """Minimal user-defined structure: symmetric part and diagonal stored separately."""

    WARN_NAIVE = False

    def __init__(self, off, diag):
        super().__init__()
        self.register_tensor(off, "off")
        self.register_tensor(diag, "diagonal")

    @classmethod
    def from_dense(cls, sym_mat):
        return cls(sym_mat - sym_mat.diag().diag(), sym_mat.diag())

    def to_dense(self):
        return self.off + self.diagonal.diag()


CLASSES = {c.__name__: c for c in [
    DenseMatrix, DiagonalMatrix, Block30DiagonalMatrix, Block3DiagonalMatrix, Hierarchical15_15Matrix,
    Hierarchical3_2Matrix, TrilToeplitzMatrix, TriuToeplitzMatrix, TrilBottomRightDiagonalMatrix,
    TrilTopLeftDiagonalMatrix, TriuBottomRightDiagonalMatrix, TriuTopLeftDiagonalMatrix, Block2, Hier12, Nested, Nested2,
    Naive]}
DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}


def gen(r, tier):
    size = r.choice([1, 2, 2, 3, 3, 4])
    mats = []
    for _ in range(r.randint(1, 4)):
        name = r.choice(list(CLASSES))
        dim = r.choice([14, 15, 16, 29, 30, 31, 33]) if name in ("Block30DiagonalMatrix", "Hierarchical15_15Matrix") and \
            r.random() < 0.6 else r.choice([1, 1, 2, 3, 4, 5, 6, 7, 9])
        mats.append({"cls": name, "dim": dim, "dtype": r.choice(["f64", "f64", "f32", "f32", "bf16", "f16"]),
                     "layout": r.choice(["plain", "natural", "product", "t", "stride", "offset"]), "seed": r.randrange(10**6)})
    groups = [None]
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.randint(1, size)
        groups.append(sorted(r.sample(range(size), k)))
    ev, pending = [], []
    for _ in range(r.randint(1, 6)):
        free = [i for i in range(len(mats)) if i not in pending]
        u = r.random()
        if pending and (u < 0.3 or not free):
            i = pending.pop(r.randrange(len(pending)))
            ev.append({"e": "wait", "m": i, "order": r.randrange(10**6)})
        elif u < 0.45:
            ev.append({"e": "touch", "m": r.choice(free), "k": r.choice([0.5, -1.0, 2.0])})
        else:
            i = r.choice(free)
            a = r.random() < 0.5
            g = r.randrange(len(groups))
            ev.append({"e": "reduce", "m": i, "op": r.choice([None, "SUM", "AVG"]), "group": g, "async": a,
                       "outsider": r.random() < 0.3})
            if a:
                pending.append(i)
    for i in pending:
        ev.append({"e": "wait", "m": i, "order": r.randrange(10**6)})
    return {"size": size, "mats": mats, "groups": groups, "events": ev, "sched": r.randrange(10**9),
            "p_switch": r.choice([0.05, 0.3, 0.7, 1.0]), "line": r.random() < 0.3,
            "stalls": [[r.randrange(size), r.randint(0, 20), r.choice([5, 50, 500])] for _ in range(r.choice([0, 0, 1, 2]))]}


def build(spec, rank):
    g = torch.Generator().manual_seed(spec["seed"] * 7 + rank)
    d, dt = spec["dim"], DT[spec["dtype"]]
    x = torch.randn(d, d, generator=g, dtype=torch.float64)
    m = CLASSES[spec["cls"]].from_dense((x + x.T).to(dt))
    # non-symmetric values, as products and momenta have; and layouts that views and products produce
    if spec["layout"] == "natural":
        return m
    if spec["layout"] == "product":
        y = torch.randn(d, d, generator=g, dtype=torch.float64)
        return m @ CLASSES[spec["cls"]].from_dense((y + y.T).to(dt))
    for _, t in m.named_tensors():
        v = torch.randn(t.shape, generator=g, dtype=torch.float64).to(dt)
        how = spec["layout"]
        if how == "t" and t.ndim >= 2:
            t.data = v.transpose(-1, -2).contiguous().transpose(-1, -2)
        elif how == "stride":
            t.data = torch.stack([v, v + 1], -1)[..., 0]
        elif how == "offset":
            t.data = torch.cat([torch.zeros(3, dtype=dt), v.flatten()])[3:].view(t.shape)
        else:
            t.data = v
    return m


def dense(m):
    return m.to_dense().detach().to(torch.float64).clone()


def run(scn, res):
    st = res.stats
    job = Job(scn["size"], scn["sched"], p_switch=scn["p_switch"], line=scn["line"], stalls=scn["stalls"])
    for s in scn["mats"]:
        st["noncontiguous"] += s["layout"] in ("t", "stride")
        st["half"] += s["dtype"] in ("bf16", "f16")
        m = build(s, 0)
        st["recursive"] += hasattr(m, "_substructure_names")
        st["empty_tensor"] += any(t.numel() == 0 for _, t in m.named_tensors())
    got = job.run([lambda r: body(scn, r, st) for _ in range(scn["size"])])
    want = model(scn)
    for r in range(scn["size"]):
        for i, s in enumerate(scn["mats"]):
            a, (b, tol) = got[r][i], want[r][i]
            res.note(a.sum().item())
            if a.shape != b.shape or not bool(((a - b).abs() <= tol).all()):
                raise Violation("reduction", f"rank {r}: {s['cls']} of dimension {s['dim']} ({s['dtype']}, {s['layout']}) "
                                             f"differs by {float((a - b).abs().max()):.3g}")
    job.count(st)
    res.simtime = job.sched.now
    res.nontrivial = scn["size"] >= 2 and job.world.n_coll > 0
    res.note(job.interleaving())
    res.sig = hist.sig(job.interleaving(), scn["mats"], scn["events"])


def body(scn, rank, st):
    mats = [build(s, rank) for s in scn["mats"]]
    types = [(type(m), [(k, t.dtype) for k, t in m.named_tensors()]) for m in mats]
    groups = [None if g is None else dist.new_group(g) for g in scn["groups"]]
    handles = {}
    for e in scn["events"]:
        if e["m"] >= len(mats):
            continue
        m = mats[e["m"]]
        if e["e"] == "touch":
            if e["m"] not in handles:
                m.mul_(e["k"])
        elif e["e"] == "reduce" and e["m"] not in handles:
            mine = scn["groups"][e["group"]] is None or rank in scn["groups"][e["group"]]
            if not mine and not e["outsider"]:
                continue
            h = reduce(m, e, groups[e["group"]])
            if not mine:
                st["outsider_calls"] += 1
                continue
            st["reduce"] += 1
            st["subgroup"] += scn["groups"][e["group"]] is not None
            if e["async"]:
                st["async"] += 1
                handles[e["m"]] = h
        elif e["e"] == "wait":
            h = handles.pop(e["m"], None)
            if h is not None:
                wait(h, e["order"])
    for h in handles.values():
        wait(h, 1)
    for m, (c, ts) in zip(mats, types):
        if type(m) is not c or [(k, t.dtype) for k, t in m.named_tensors()] != ts:
            raise Violation("type", f"rank {rank}: all_reduce changes the class or data type of {c.__name__}")
    return [dense(m) for m in mats]


@sut
def reduce(m, e, group):
    kw = {"op": getattr(dist.ReduceOp, e["op"])} if e["op"] else {}
    if group is not None:
        kw["group"] = group
    if e["async"]:
        kw["async_op"] = True
    return m.all_reduce(**kw)


@sut
def wait(h, order):
    import random
    h = list(h) if isinstance(h, (tuple, list)) else [h]
    random.Random(order).shuffle(h)
    for x in h:
        if x is not None:
            x.wait()


def model(scn):
    """What every rank must hold, in float64, with the rounding error of the data type."""
    eps = {"f64": 1e-14, "f32": 1e-6, "bf16": 8e-3, "f16": 1e-3}
    n = scn["size"]
    vals = [[dense(build(s, r)) for s in scn["mats"]] for r in range(n)]
    out = [[[v, v.abs() * eps[s["dtype"]] + 1e-300] for v, s in zip(vals[r], scn["mats"])] for r in range(n)]
    busy = {}
    for e in scn["events"]:
        i = e["m"]
        if i >= len(scn["mats"]):
            continue
        ep = eps[scn["mats"][i]["dtype"]]
        for r in range(n):
            b = busy.setdefault(r, set())
            if e["e"] == "wait":
                b.discard(i)
            elif e["e"] == "touch" and i not in b:
                v, t = out[r][i]
                out[r][i] = [v * e["k"], t * abs(e["k"]) + ep * (v * e["k"]).abs()]
        if e["e"] == "reduce":
            g = scn["groups"][e["group"]] or list(range(n))
            g = [r for r in g if i not in busy[r]]
            if not g:
                continue
            v = sum(out[r][i][0] for r in g)
            mag = sum(out[r][i][0].abs() for r in g)
            t = sum(out[r][i][1] for r in g) + len(g) * ep * mag
            if e["op"] != "SUM":
                v, t = v / len(g), t / len(g)
            for r in g:
                out[r][i] = [v, t + ep * v.abs()]
                if e["async"]:
                    busy[r].add(i)
    return out

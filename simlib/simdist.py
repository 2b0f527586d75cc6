"""A simulated ``torch.distributed``: ranks are scheduler tasks, collectives have a post and, at a later time
chosen by the scheduler, a completion on every rank. The buffer of a collective in flight is poisoned."""
import copy
import random

import torch
import torch.distributed as dist

from . import sched as S


class CollectiveMismatch(Exception):
    """Ranks called different collectives (on a real cluster: hang or garbage)."""


class UnsupportedCollective(Exception):
    """The simulator has no model for this call (an error of the harness, not a violation)."""


class SimGroup:
    def __init__(self, ranks, tag):
        self.ranks, self.tag = list(ranks), tag

    def size(self):
        return len(self.ranks)

    def rank(self):
        return self.ranks.index(S.current().rank)


class Work:
    def __init__(self, world, slot, rank):
        self.world, self.slot, self.rank, self.done = world, slot, rank, False
        self.waited = False

    def wait(self, timeout=None):
        self.waited = True
        if not self.done:
            def cond(w=self):
                return w.done
            cond.why = f"collective {self.slot.key} {self.slot.kind}"
            self.world.sched.block(cond)
        return True

    def is_completed(self):
        return self.done

    def result(self):
        return [self.value()]

    def synchronize(self):
        self.wait()

    def get_future(self):
        return self

    def value(self):
        return self.slot.tensors.get(self.rank)

    def done_(self):
        return self.done


class Slot:
    def __init__(self, key, group):
        self.key, self.group = key, group
        self.kind = self.sig = None
        self.posts, self.tensors, self.works, self.extra = {}, {}, {}, {}
        self.result = None


def memory(t):
    """What a communication library sees: the elements in the order of their addresses."""
    t = t.detach()
    if t.is_contiguous():
        return t.view(-1)
    want = 1
    for st, n in sorted((st, n) for st, n in zip(t.stride(), t.shape) if n != 1):
        if st != want:  # not non-overlapping and dense
            raise ValueError("Tensors must be contiguous")
        want *= n
    return t.as_strided((t.numel(),), (1,))


class World:
    """One distributed job."""

    def __init__(self, sched, size, seed=0, poison=True):
        self.sched, self.size = sched, size
        self.default = SimGroup(range(size), "world")
        self.counters, self.slots = {}, {}
        self.rng = random.Random(seed)
        self.poison = poison
        self.n_coll = 0
        self.trace = {r: [] for r in range(size)}
        self.prints = None  # per rank: what it communicates
        self.async_posts = 0

    def group(self, g):
        if g is None or g is dist.GroupMember.WORLD or not isinstance(g, SimGroup):
            return self.default
        return g

    def post(self, kind, tensor, sig, group, extra=None, async_op=False):
        t = S.current()
        t.atomic += 1
        try:
            w = self._post(t.rank, kind, tensor, sig, group, extra)
        finally:
            t.atomic -= 1
        if w is None:
            return None
        if async_op:
            self.async_posts += 1
            self.sched.point("post")
            return w
        w.wait()
        return None

    def _post(self, r, kind, tensor, sig, group, extra):
        g = self.group(group)
        if r not in g.ranks:
            return None
        if isinstance(tensor, torch.Tensor):
            tensor = memory(tensor)
        n = self.counters[(g.tag, r)] = self.counters.get((g.tag, r), -1) + 1
        key = (g.tag, n)
        s = self.slots.setdefault(key, Slot(key, g))
        full = (kind, sig)
        self.trace[r].append((g.tag, kind, str(sig)))
        if self.prints is not None:
            x = float(tensor.double().abs().sum()) if isinstance(tensor, torch.Tensor) else 0.0
            self.prints.setdefault(r, []).append((g.tag, kind, str(sig), x))
        if s.sig is None:
            s.kind, s.sig = kind, full
        elif s.sig != full:
            raise CollectiveMismatch(
                f"collective #{n} of group {g.tag}: rank {r} calls {full}, another rank called {s.sig}")
        w = Work(self, s, r)
        s.works[r] = w
        s.extra[r] = extra
        s.tensors[r] = tensor
        if isinstance(tensor, torch.Tensor):
            s.posts[r] = tensor.detach().clone()
            if self.poison and tensor.is_floating_point():
                tensor.detach().fill_(float("nan"))
        else:
            s.posts[r] = copy.deepcopy(tensor)
        if len(s.posts) == len(g.ranks):
            self.finish(s)
        return w

    def finish(self, s):
        """All ranks have posted: compute, and let the scheduler deliver to every rank at its own time."""
        self.n_coll += 1
        order = list(s.group.ranks)
        self.rng.shuffle(order)
        s.result = COMPUTE[s.kind](s, order)
        for r in s.group.ranks:
            def fire(r=r):
                DELIVER[s.kind](s, r)
                s.works[r].done = True
            self.sched.events.append(S.Event(f"{s.key[0]}.{s.key[1]}->{r}", lambda: True, fire))
        self.slots.pop(s.key)


def _reduce(s, order, op):
    acc = s.posts[order[0]].clone()
    for r in order[1:]:
        x = s.posts[r]
        if op in (dist.ReduceOp.SUM, dist.ReduceOp.AVG):
            acc = acc + x
        elif op == dist.ReduceOp.MAX:
            acc = torch.maximum(acc, x)
        elif op == dist.ReduceOp.MIN:
            acc = torch.minimum(acc, x)
        elif op == dist.ReduceOp.PRODUCT:
            acc = acc * x
        else:
            raise UnsupportedCollective(str(op))
    if op == dist.ReduceOp.AVG:
        acc = acc / len(order)
    return acc


def _set(t, v):
    with torch.no_grad():
        t.detach().copy_(v)


def _c_reduce(s, order):
    return _reduce(s, order, next(iter(s.extra.values()))["op"])


def _d_reduce(s, r):
    dst = s.extra[r].get("dst")
    if dst is None or dst == r:
        _set(s.tensors[r], s.result)
    else:
        _set(s.tensors[r], s.posts[r])


def _d_bcast(s, r):
    src = s.posts[s.extra[r]["src"]]
    if isinstance(s.tensors[r], torch.Tensor):
        _set(s.tensors[r], src)
    else:
        s.tensors[r][:] = copy.deepcopy(src)


def _d_gather(s, r):
    _set(s.tensors[r], s.posts[r])
    for i, q in enumerate(s.group.ranks):
        _set(s.extra[r]["out"][i], s.posts[q].reshape(s.extra[r]["out"][i].shape))


def _d_gather_into(s, r):
    _set(s.tensors[r], s.posts[r])
    out = s.extra[r]["out"]
    _set(out, torch.cat([s.posts[q].flatten() for q in s.group.ranks]).reshape(out.shape))


def _d_gather_obj(s, r):
    s.extra[r]["out"][:] = [copy.deepcopy(s.posts[q]) for q in s.group.ranks]


def _none(*_):
    return None


COMPUTE = {"all_reduce": _c_reduce, "reduce": _c_reduce, "broadcast": _none, "barrier": _none, "all_gather": _none,
           "all_gather_into_tensor": _none, "all_gather_object": _none, "broadcast_object_list": _none}
DELIVER = {"all_reduce": _d_reduce, "reduce": _d_reduce, "broadcast": _d_bcast, "barrier": _none,
           "all_gather": _d_gather, "all_gather_into_tensor": _d_gather_into, "all_gather_object": _d_gather_obj,
           "broadcast_object_list": _d_bcast}

_orig = {}


def _world():
    t = S.current()
    return None if t is None else t.world


def _sig(t):
    return (tuple(t.shape), str(t.dtype))


def _opname(op):
    return str(op).split(".")[-1]


def _deco(name):
    def wrap(fn):
        _orig[name] = getattr(dist, name)

        def f(*a, **k):
            w = _world()
            if w is None:
                return _orig[name](*a, **k)
            return fn(w, *a, **k)
        f.__name__ = name
        f._sim = fn
        _patches[name] = f
        return fn
    return wrap


_patches = {}


@_deco("is_initialized")
def _is_initialized(w):
    return True


@_deco("is_available")
def _is_available(w):
    return True


@_deco("get_rank")
def _get_rank(w, group=None):
    r = S.current().rank
    g = w.group(group)
    return g.ranks.index(r) if r in g.ranks else -1


@_deco("get_world_size")
def _get_world_size(w, group=None):
    g = w.group(group)
    return len(g.ranks) if S.current().rank in g.ranks else -1


@_deco("get_backend")
def _get_backend(w, group=None):
    return "nccl"


@_deco("all_reduce")
def _all_reduce(w, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    return w.post("all_reduce", tensor, (_sig(tensor), _opname(op)), group, {"op": op}, async_op)


@_deco("reduce")
def _reduce_(w, tensor, dst=None, op=dist.ReduceOp.SUM, group=None, async_op=False, group_dst=None):
    dst = dst if dst is not None else w.group(group).ranks[group_dst]
    return w.post("reduce", tensor, (_sig(tensor), _opname(op), dst), group, {"op": op, "dst": dst}, async_op)


@_deco("broadcast")
def _broadcast(w, tensor, src=None, group=None, async_op=False, group_src=None):
    src = src if src is not None else w.group(group).ranks[group_src]
    return w.post("broadcast", tensor, (_sig(tensor), src), group, {"src": src}, async_op)


@_deco("broadcast_object_list")
def _broadcast_object_list(w, object_list, src=None, group=None, device=None, group_src=None):
    src = src if src is not None else w.group(group).ranks[group_src]
    return w.post("broadcast_object_list", object_list, (len(object_list), src), group, {"src": src})


@_deco("barrier")
def _barrier(w, group=None, async_op=False, device_ids=None):
    return w.post("barrier", None, (), group, None, async_op)


@_deco("all_gather")
def _all_gather(w, tensor_list, tensor, group=None, async_op=False):
    return w.post("all_gather", tensor, _sig(tensor), group, {"out": tensor_list}, async_op)


@_deco("all_gather_into_tensor")
def _all_gather_into(w, output_tensor, input_tensor, group=None, async_op=False):
    return w.post("all_gather_into_tensor", input_tensor, _sig(input_tensor), group, {"out": output_tensor}, async_op)


@_deco("all_gather_object")
def _all_gather_object(w, object_list, obj, group=None):
    return w.post("all_gather_object", obj, (), group, {"out": object_list})


@_deco("new_group")
def _new_group(w, ranks=None, *a, **k):
    ranks = list(range(w.size)) if ranks is None else sorted(ranks)
    t = S.current()
    n = w.counters[("groups", t.rank)] = w.counters.get(("groups", t.rank), -1) + 1
    return SimGroup(ranks, f"g{n}:{ranks}")


def _unsupported(name):
    _orig[name] = getattr(dist, name)

    def f(*a, **k):
        if _world() is None:
            return _orig[name](*a, **k)
        raise UnsupportedCollective(name)
    return f


def install():
    for name, f in _patches.items():
        setattr(dist, name, f)
    import torch.distributed.distributed_c10d as c10d
    for name, f in _patches.items():
        setattr(c10d, name, f)
    for name in ["reduce_scatter", "reduce_scatter_tensor", "all_to_all", "all_to_all_single", "gather", "scatter",
                 "send", "recv", "isend", "irecv", "batch_isend_irecv", "all_reduce_coalesced"]:
        if hasattr(dist, name):
            setattr(dist, name, _unsupported(name))

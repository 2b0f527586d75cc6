"""Shared vocabulary of the checks."""
import hashlib
import json
import traceback
from collections import Counter

from . import env


class Violation(Exception):
    """The property is broken. ``kind`` is the class that minimisation preserves."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class SutError(Exception):
    """The system under test raised although the scenario is legal."""


class Injected(Exception):
    """A fault raised by the simulator inside the system (out of memory, interrupt)."""


class Crash(BaseException):
    """Simulated process death."""


class Result:
    def __init__(self):
        self.violation = None  # {"kind", "msg"}
        self.known = []  # descriptions of known findings that were hit
        self.nontrivial = False
        self.stats = Counter()  # events, faults, probes
        self.sig = None  # what makes this run distinct
        self.simtime = 0
        self._h = hashlib.sha256()

    def note(self, *xs):
        """Feed the deterministic log (digest)."""
        for x in xs:
            self._h.update(repr(x).encode())

    def note_obs(self, obs):
        for k in sorted(obs):
            self._h.update(k.encode())
            self._h.update(obs[k].detach().contiguous().numpy().tobytes())

    def digest(self):
        return self._h.hexdigest()[:16]

    def pack(self):
        return {"violation": self.violation, "known": self.known, "nontrivial": self.nontrivial,
                "stats": dict(self.stats), "sig": self.sig, "simtime": self.simtime, "digest": self.digest()}


def execute(check, scn):
    """Run a scenario; every outcome is data."""
    res = Result()
    try:
        env.reset_process()
        check.run(scn, res)
    except Violation as v:
        res.violation = {"kind": v.kind, "msg": v.msg}
    except SutError as e:
        c = e.__cause__
        res.violation = {"kind": "exception", "msg": f"{type(c).__name__}: {str(c)[:300]} [{where(c)}]"}
    except Exception as e:
        if where(e) == "outside singd":
            raise
        res.violation = {"kind": "exception", "msg": f"{type(e).__name__}: {str(e)[:300]} [{where(e)}]"}
    return res.pack()


def where(e):
    """Innermost frame inside the repository."""
    from .env import SINGD_DIR
    best = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(SINGD_DIR):
            best = f"{f.filename[len(SINGD_DIR) + 1:]}:{f.name}"
    return best or "outside singd"


def sut(fn):
    """Decorator: legal calls of the system must not raise."""
    def f(*a, **k):
        try:
            return fn(*a, **k)
        except (Violation, SutError, Injected):
            raise
        except Exception as e:
            raise SutError(str(e)) from e
    f.__name__ = fn.__name__
    f.__wrapped__ = fn
    return f


def jcopy(x):
    return json.loads(json.dumps(x))


# ------------------------------------------------------------------ shrinking
def ddmin_lists(items):
    """Candidate sub-lists: drop halves, quarters, ..., single elements."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield items[:i] + items[i + size:]
        size //= 2


def hp_candidates(cfg):
    """Simpler configurations."""
    simple = {"momentum": 0.0, "weight_decay": 0.0, "alpha1": 0.0, "normalize_lr_cov": False, "kfac_like": False,
              "kfac_approx": "expand", "structures": ["dense", "dense"], "T": 1}
    for gi, g in enumerate(cfg.get("groups", [])):
        for k, v in simple.items():
            if g["hp"].get(k) != v:
                c = jcopy(cfg)
                c["groups"][gi]["hp"][k] = v
                yield c
        if isinstance(g["hp"].get("lr_cov"), dict):
            c = jcopy(cfg)
            c["groups"][gi]["hp"]["lr_cov"] = g["hp"]["lr_cov"]["a"]
            yield c
    if cfg.get("n", 1) > 1:
        c = jcopy(cfg)
        c["n"] = 1
        yield c


def default_shrinks(scn):
    for key in ("events", "faults"):
        if isinstance(scn.get(key), list):
            for l in ddmin_lists(scn[key]):
                c = jcopy(scn)
                c[key] = l
                yield c
    if "cfg" in scn:
        for c in hp_candidates(scn["cfg"]):
            d = jcopy(scn)
            d["cfg"] = c
            yield d


def minimise(check, scn, kind, budget=250):
    """Greedy: take any smaller scenario that fails in the same class."""
    shr = getattr(check, "shrinks", default_shrinks)
    n, progress = 0, True
    while progress and n < budget:
        progress = False
        for cand in shr(scn):
            n += 1
            if n > budget:
                break
            try:
                out = execute(check, cand)
            except Exception:
                continue
            if out["violation"] and out["violation"]["kind"] == kind:
                scn, progress = cand, True
                break
    return scn, n

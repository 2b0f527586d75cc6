"""Two executions of the real code that must agree.

They are compared bit by bit. Only if they differ, the reference model decides how much of a difference rounding
can explain in this run (ill-conditioned and exploding runs are cut off, as everywhere)."""
import torch

from . import compare, core, hist
from .core import Violation


def legalise(events, scaled):
    g = hist.Guard(scaled)
    return [e for e in events if g.ok(e)]


class Rounding:
    """Lazily evaluated: tolerance after the n-th step of the undisturbed history (None: cut off)."""

    def __init__(self, cfg, events, scaler=None, sched=None, low=False):
        self.args, self.low, self.tols = (cfg, events, scaler, sched), low, None

    def tol(self, n):
        cfg, events, scaler, sched = self.args
        if self.low:  # a reduced precision is involved: only gross differences count
            return 0.1
        if cfg["dtype"] == "f64":
            return 1e-6
        if self.tols is None:
            self.tols = []
            res = core.Result()
            try:
                sim = hist.Sim(cfg, res, scaler=scaler, sched=sched)

                def after(i, ev):
                    if ev["e"] == "step":
                        self.tols.append(None if sim.judge.stopped else 3e-4 + 100 * sim.judge.est)
                sim.run(events, after)
            except Violation:
                self.tols += [3e-3] * 100  # the reference disagrees: another property
        return self.tols[n - 1] if 0 < n <= len(self.tols) else (3e-4 if n == 0 else None)


class Pair:
    """Comparison of a twin with the recorded observations of the undisturbed run."""

    def __init__(self, res, rounding, limit=1e2):
        self.res, self.rounding, self.limit = res, rounding, limit
        self.compared, self.stopped = 0, False

    def check(self, what, got, want, n, kind="mismatch"):
        """``n``: number of steps of the undisturbed history so far."""
        if self.stopped:
            return False
        self.compared += 1
        if got.keys() == want.keys() and all(same(got[k], want[k]) for k in want):
            return True
        if got.keys() != want.keys():
            raise Violation("state", f"{what}: entries differ: {sorted(set(got) ^ set(want))}")
        if not compare.sane(want, self.limit):
            return self.cut()
        tol = self.rounding.tol(n) if not isinstance(self.rounding, float) else self.rounding
        if tol is None:
            return self.cut()
        d, w = compare.diff(got, want)
        if d > tol:
            raise Violation(kind, f"{what}: {w} differs by {d:.3g} (relative, tolerance {tol:.1g})")
        self.res.stats["not_bitwise_equal"] += 1
        return True

    def cut(self):
        self.compared -= 1
        self.stopped = True
        self.res.stats["cut_off"] += 1
        return False


def same(x, y):
    return x.shape == y.shape and x.dtype == y.dtype and bool(((x == y) | (torch.isnan(x) & torch.isnan(y))).all())

"""A simulated distributed job: every rank is a thread of the deterministic scheduler."""
import hashlib
import random

import torch

from . import faults, sched, simdist
from .core import Crash, SutError, Violation
from .env import SINGD_DIR


class HarnessGap(Exception):
    """The simulator has no model for what the code does (never a violation)."""


class Job:
    def __init__(self, size, seed, p_switch=0.3, line=False, stalls=(), max_switches=200000, ops=True):
        self.rng = random.Random(seed)
        self.sched = sched.Sched(self.rng, p_switch=p_switch, line_dir=SINGD_DIR if line else None,
                                 max_switches=max_switches)
        self.world = simdist.World(self.sched, size, seed=seed + 1)
        self.size, self.ops = size, ops
        self.n_ops, self.deaths = [0] * size, {}  # rank -> dies at its n-th operation
        self.stalls = list(stalls)  # (rank, after n yields, for m decisions)

    def spawn(self, r, fn):
        def body(task):
            if not self.ops:
                return fn(r)

            with faults.OpCounter(on_op=lambda: self.on_op(r)):
                return fn(r)
        t = self.sched.spawn(f"r{r}", body)
        t.world, t.rank = self.world, r
        return t

    def on_op(self, r):
        if not sched.current().atomic:
            self.n_ops[r] += 1
            if self.n_ops[r] == self.deaths.get(r):
                raise Crash(f"rank {r} died")
            self.sched.point()

    def run(self, bodies):
        """``bodies``: one callable(rank) per rank. Returns their results."""
        ts = [self.spawn(r, fn) for r, fn in enumerate(bodies)]
        for r, at, n in self.stalls:
            if r < len(ts):
                self.sched.stalls.append((ts[r], at, n))
        grad = torch.is_grad_enabled()
        try:
            self.sched.run()
        except sched.Deadlock as e:
            raise Violation("deadlock", str(e)) from None
        except sched.StepLimit as e:
            raise Violation("no progress", str(e)) from None
        except simdist.UnsupportedCollective as e:
            raise HarnessGap(f"no model of torch.distributed.{e}") from None
        except simdist.CollectiveMismatch as e:
            raise Violation("collectives", str(e)) from None
        except SutError as e:
            c = e
            while isinstance(c, SutError):
                c = c.__cause__
            if isinstance(c, simdist.UnsupportedCollective):
                raise HarnessGap(f"no model of torch.distributed.{c}") from None
            if isinstance(c, simdist.CollectiveMismatch):
                raise Violation("collectives", str(c)) from None
            if isinstance(c, Violation):
                raise c from None
            raise
        finally:
            torch.set_grad_enabled(grad)
        if self.world.slots:
            raise Violation("collectives", f"not all ranks took part in {[s.kind for s in self.world.slots.values()]}")
        return [t.result for t in ts]

    def interleaving(self):
        return hashlib.sha256(" ".join(self.sched.log).encode()).hexdigest()[:16]

    def count(self, st):
        st["sched_decisions"] += self.sched.now
        st["preemption_points"] += self.sched.n_points
        st["collectives"] += self.world.n_coll
        st["async_posts"] += self.world.async_posts
        st["stalls"] += self.sched.n_stalled

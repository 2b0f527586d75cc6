"""Deterministic thread scheduler: real threads, one baton, every switch decided by a seeded PRNG."""
import sys
import threading

_local = threading.local()


def current():
    """The simulated task this thread runs, or None."""
    return getattr(_local, "task", None)


class SimKilled(BaseException):
    """Raised inside a task that the simulator kills (process death)."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.exc = None
        self.result = None
        self.kill = False
        self.blocked = None  # callable: True when it may continue
        self.stall_until = 0
        self.world = None
        self.rank = None
        self.n_yields = 0
        self.atomic = 0
        self.thread = threading.Thread(target=self._main, name=f"sim-{name}", daemon=True)

    def _main(self):
        self.sem.acquire()
        _local.task = self
        try:
            if self.kill:
                raise SimKilled
            if self.sched.line_dir:
                sys.settrace(self.sched.tracer)
            self.result = self.fn(self)
        except SimKilled:
            self.exc = None
        except BaseException as e:  # noqa: B902 - reported by the controller
            self.exc = e
        finally:
            sys.settrace(None)
            self.done = True
            _local.task = None
            self.sched.back.release()


class Sched:
    """``rng`` decides everything. ``log`` records every switch (the interleaving)."""

    def __init__(self, rng, p_switch=0.3, max_switches=200000, line_dir=None, p_line=0.05):
        self.rng, self.p_switch = rng, p_switch
        self.tasks, self.events = [], []
        self.back = threading.Semaphore(0)
        self.now = 0  # simulated time: number of scheduling decisions
        self.log = []
        self.max = max_switches
        self.line_dir, self.p_line = line_dir, p_line
        self.n_points = 0
        self.monitor = None  # called at every preemption point: what another thread would see there
        self.stalls, self.n_stalled = [], 0  # (task, number of yields after which it stalls, duration)

    # -- tasks
    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        t.thread.start()
        return t

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.line_dir):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            t = current()
            if t is not None and self.rng.random() < self.p_line:
                self.point("line")
        return self.line

    def point(self, why="op"):
        """A preemption point of the running task."""
        t = current()
        if t is None or t.sched is not self or t.atomic:
            return
        self.n_points += 1
        if t.kill:
            raise SimKilled
        if self.monitor is not None:
            self.monitor()
        if self.rng.random() >= self.p_switch:
            return
        self._park(t)

    def block(self, cond):
        """Block the running task until ``cond()``."""
        t = current()
        t.blocked = cond
        self._park(t)

    def _park(self, t):
        t.n_yields += 1
        self.back.release()
        t.sem.acquire()
        t.blocked = None
        if t.kill:
            raise SimKilled

    # -- controller
    def run(self, on_idle=None):
        """Run all tasks to completion. Returns normally, or raises Deadlock / StepLimit."""
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    return
                choices = [t for t in live if (t.blocked is None or t.blocked()) and t.stall_until <= self.now]
                evs = [e for e in self.events if e.ready()]
                if not choices and not evs:
                    stalled = [t for t in live if (t.blocked is None or t.blocked())]
                    if stalled:  # jump the clock to the end of the first stall
                        self.now = min(t.stall_until for t in stalled)
                        continue
                    raise Deadlock(", ".join(f"{t.name}: {getattr(t.blocked, 'why', '?')}" for t in live))
                for s in [s for s in self.stalls if s[0].n_yields >= s[1]]:
                    self.stalls.remove(s)
                    if not s[0].done:
                        s[0].stall_until = self.now + s[2]
                        self.n_stalled += 1
                        choices = [t for t in choices if t is not s[0]]
                if not choices and not evs:
                    continue
                self.now += 1
                if self.now > self.max:
                    raise StepLimit(f"no completion within {self.max} scheduling decisions")
                k = self.rng.randrange(len(choices) + len(evs))
                if k >= len(choices):
                    e = evs[k - len(choices)]
                    self.events.remove(e)
                    self.log.append("!" + e.name)
                    e.fire()
                else:
                    t = choices[k]
                    self.log.append(t.name)
                    t.sem.release()
                    self.back.acquire()
                    if t.done and t.exc is not None:
                        raise t.exc
        finally:
            self.shutdown()

    def shutdown(self):
        for t in self.tasks:
            n = 0
            while not t.done and n < 1000:
                t.kill = True
                t.sem.release()
                self.back.acquire()
                n += 1
        for t in self.tasks:
            t.thread.join(timeout=20)


class Event:
    def __init__(self, name, ready, fire):
        self.name, self.ready, self.fire = name, ready, fire

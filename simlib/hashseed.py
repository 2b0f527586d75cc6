"""Processes differ in how Python hashes strings: the order of sets of names is not the same on every rank, nor in the
process that restores a checkpoint. Scenarios are executed in processes with different ``PYTHONHASHSEED``.

``check.hash_first(scn)`` runs in the first process, ``check.hash_second(scn, got)`` in the second one (with what the
first one returned); ``check.hash_compare(scn, a, b)`` raises ``Violation``. What is handed over is pickled."""
import importlib
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from . import env
from .core import Result, SutError, Violation, default_shrinks, where

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = ("1", "2")


def child(modname, stage, path_in, path_out):
    """Entry point of the processes."""
    check = importlib.import_module(modname)
    with open(path_in, "rb") as f:
        jobs = pickle.load(f)
    out = []
    for scn, got in jobs:
        env.reset_process()
        try:
            out.append({"got": check.hash_first(scn) if stage == "first" else check.hash_second(scn, got)})
        except Violation as v:
            out.append({"fails": (v.kind, v.msg)})
        except SutError as e:
            c = e.__cause__
            out.append({"fails": ("exception", f"{type(c).__name__}: {str(c)[:300]} [{where(c)}]")})
        except Exception as e:
            if where(e) == "outside singd":
                raise
            out.append({"fails": ("exception", f"{type(e).__name__}: {str(e)[:300]} [{where(e)}]")})
    with open(path_out, "wb") as f:
        pickle.dump(out, f)


class Twins:
    """Both processes for a list of scenarios."""

    def __init__(self, check, scns):
        self.check, self.scns = check, scns
        self.dir = tempfile.mkdtemp(prefix="simhash")
        self.first = self.start("first", SEEDS[0], [None] * len(scns))
        # the second one waits for the first one only if it continues what that did
        self.second = None if getattr(check, "HASH_CHAIN", False) else self.start("second", SEEDS[1], [None] * len(scns))

    def start(self, stage, seed, got):
        base = os.path.join(self.dir, stage)
        with open(base + ".in", "wb") as f:
            pickle.dump(list(zip(self.scns, got)), f)
        e = {**os.environ, "PYTHONHASHSEED": seed}
        return base, subprocess.Popen([sys.executable, os.path.join(ROOT, "check.py"), self.check.__name__, "--hash-stage",
                                       stage, base + ".in", base + ".out"], env=e, stdout=subprocess.DEVNULL,
                                      stderr=subprocess.PIPE, text=True)

    def wait(self, started):
        base, p = started
        _, err = p.communicate(timeout=3600)
        if p.returncode:
            raise RuntimeError(f"hash-seed process failed\n{err[-2000:]}")
        with open(base + ".out", "rb") as f:
            return pickle.load(f)

    def result(self):
        """Per scenario a violation or None."""
        try:
            a = self.wait(self.first)
            if self.second is None:
                self.second = self.start("second", SEEDS[1], [x.get("got") for x in a])
            b = self.wait(self.second)
        finally:
            self.close()
        out = []
        for scn, x, y in zip(self.scns, a, b):
            v = None
            if "fails" not in x:  # (what fails without a second process is found by the runs themselves)
                try:
                    if "fails" in y:
                        raise Violation(*y["fails"])
                    self.check.hash_compare(scn, x["got"], y["got"])
                except Violation as e:
                    v = {"kind": e.kind, "msg": "another process, which hashes strings differently: " + e.msg}
            out.append(v)
        return out

    def close(self):
        for p in (self.first, self.second):
            if p is not None and p[1].poll() is None:
                p[1].kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(check, scn):
    res = Result()
    res.violation = Twins(check, [scn]).result()[0]
    return res.pack()


def minimise(check, scn, kind, rounds=8):
    """Evaluates many candidates per pair of processes."""
    n = 0
    for _ in range(rounds):
        cands = []
        for c in getattr(check, "shrinks", default_shrinks)(scn):
            cands.append(c)
            if len(cands) >= 40:
                break
        if not cands:
            break
        n += len(cands)
        try:
            vs = Twins(check, cands).result()
        except RuntimeError:
            break
        hit = next((c for c, v in zip(cands, vs) if v is not None and v["kind"] == kind), None)
        if hit is None:
            break
        scn = hit
    return scn, n

"""Runs a check: fixed set of seeds, forked workers, minimisation, replay files, evidence."""
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import env, hashseed
from .core import Result, execute, minimise, where
from .rng import rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SIM_OUT", VERIF)
RUN_LIMIT_S = 120


class RunTimeout(BaseException):
    pass


def _alarm(*_):
    raise RunTimeout


def scenario(check, seed, i, tier):
    scn = check.gen(rng(check.PROP, seed, i), tier)
    scn["run"] = i
    return scn


def _one(args):
    modname, seed, i, tier = args
    check = importlib.import_module(modname)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT_S)
    try:
        scn = scenario(check, seed, i, tier)
        out = execute(check, scn)
        out["i"] = i
        if i < 400 and out["nontrivial"]:
            out["sample"] = scn
        return out
    except RunTimeout as e:
        if where(e) == "outside singd":
            return {"i": i, "error": f"run {i} exceeded {RUN_LIMIT_S} s"}
        out = Result()
        out.violation = {"kind": "no progress", "msg": f"not finished within {RUN_LIMIT_S} s [{where(e)}]"}
        return {**out.pack(), "i": i}
    except BaseException:
        return {"i": i, "error": traceback.format_exc()}
    finally:
        signal.alarm(0)


def _worker(modname, seed, tier, tasks, out, slot, current):
    """Body of a worker process. ``current[slot]`` tells the parent which run is being executed."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        idx = tasks.get()
        if idx is None:
            out.put((slot, None))
            return
        got = []
        for i in idx:
            current[slot] = i
            got.append(_one((modname, seed, i, tier)))
        current[slot] = -1
        out.put((idx[0], got))


def farm(modname, seed, tier, n, workers, dead):
    """Yield the results of runs 0..n-1 in order. A worker that dies or hangs in native code is reported as
    ``dead.append((run, how))`` and ends the iteration."""
    ctx = mp.get_context("fork")
    tasks, out, current = ctx.SimpleQueue(), ctx.Queue(), ctx.Array("q", [-1] * workers, lock=False)
    chunks = [list(range(i, min(i + 4, n))) for i in range(0, n, 4)]
    feed = iter(chunks + [None] * workers)
    procs = [ctx.Process(target=_worker, args=(modname, seed, tier, tasks, out, w, current), daemon=True)
             for w in range(workers)]
    for p in procs:
        p.start()
    for _ in range(3 * workers):
        tasks.put(next(feed, None))
    since = [(-1, time.time())] * workers
    ready, pos, left = {}, 0, workers
    try:
        while pos < len(chunks):
            try:
                first, got = out.get(timeout=1.0)
                if got is None:
                    left -= 1
                else:
                    ready[first // 4] = got
                    tasks.put(next(feed, None))
            except queue.Empty:
                pass
            while pos in ready:
                yield from ready.pop(pos)
                pos += 1
            if pos >= len(chunks):
                return
            for w, p in enumerate(procs):
                if current[w] != since[w][0]:
                    since[w] = (current[w], time.time())
                run = current[w]
                if run >= 0 and not p.is_alive():
                    dead.append((run, f"the process died (exit code {p.exitcode})"))
                elif run >= 0 and time.time() - since[w][1] > 2 * RUN_LIMIT_S:
                    dead.append((run, "hangs in native code"))
            if dead:
                return
    finally:
        for p in procs:
            p.kill()


def _isolated(check, scn, conn):
    conn.send(execute(check, scn)["violation"])
    conn.close()


def isolated(check, scn):
    """Execute in a process of its own, which may die."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_isolated, args=(check, scn, b), daemon=True)
    p.start()
    b.close()
    try:
        return a.recv() if a.poll(2 * RUN_LIMIT_S) else {"kind": "process", "msg": "hangs in native code"}
    except EOFError:
        p.join()
        return {"kind": "process", "msg": f"the process died (exit code {p.exitcode})"}
    finally:
        p.kill()


def died_again(modname, seed, i, tier):
    check = importlib.import_module(modname)
    v = isolated(check, scenario(check, seed, i, tier))
    return v is not None and v["kind"] == "process"


def _min(args):
    modname, seed, i, tier, kind = args
    check = importlib.import_module(modname)
    scn = scenario(check, seed, i, tier)
    return minimise(check, scn, kind, budget=getattr(check, "SHRINK_BUDGET", 250))


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(modname, argv):
    check = importlib.import_module(modname)
    prop = check.PROP
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 1))))
    n = check.RUNS[tier]
    if "--runs" in argv:
        n = int(argv[argv.index("--runs") + 1])
    cap = {"quick": 400, "thorough": 6 * 3600}[tier]
    print(f"{prop}: seed={seed} tier={tier} runs={n} workers={workers}", flush=True)
    t0 = time.time()
    stats, simtime, evals, nontriv, sigs = Counter(), 0, 0, 0, set()
    samples, known, digests, viol, errors, capped = [], Counter(), [], None, [], False
    known_list = load_known(prop)
    dead = []
    n_twins = min(n, getattr(check, "HASH_TWINS", {"quick": 0, "thorough": 0})[tier])
    twins = hashseed.Twins(check, [scenario(check, seed, i, tier) for i in range(n_twins)]) if n_twins else None
    with contextlib.closing(farm(modname, seed, tier, n, workers, dead)) as it:
        for out in it:
            if "error" in out:
                errors.append(out["error"])
                if len(errors) >= 3:
                    break
                continue
            evals += 1
            stats.update(out["stats"])
            simtime += out["simtime"]
            digests.append(out["digest"])
            if out["nontrivial"]:
                nontriv += 1
                sigs.add(out["sig"] if out["sig"] is not None else out["digest"])
                if len(samples) < 3 and "sample" in out:
                    samples.append(out["sample"])
            for k in out["known"]:
                known[k] += 1
            if out["violation"] is not None and viol is None:
                viol = (out["i"], out["violation"])
                break
            if time.time() - t0 > cap:
                capped = True
                break
    if dead and viol is None:
        i, how = min(dead)
        if died_again(modname, seed, i, tier):
            viol = (i, {"kind": "process", "msg": how})
        else:
            errors.append(f"run {i}: {how}; not when repeated")
    if twins is not None and viol is None and not errors:
        try:
            vs = twins.result()
            stats["hash_seed_twins"] += len(vs)
            viol = next(((i, {**v, "hash_seeds": hashseed.SEEDS}) for i, v in enumerate(vs) if v is not None), None)
        except Exception:
            errors.append(traceback.format_exc())
    if twins is not None:
        twins.close()
    wall = time.time() - t0
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": len(sigs),
        "rule": check.RULE,
        "samples": samples or [{"note": "no non-trivial run before the violation"}],
        "nontrivial_runs": nontriv,
        "runs_planned": n,
        "wall_cap_hit": capped,
        "seeds_per_hour": round(evals / max(wall, 1e-9) * 3600),
        "simulated_time": {"unit": check.TIME_UNIT, "total": simtime},
        "events_and_faults": {k: v for k, v in sorted(stats.items())},
        "probes_at_zero": [p for p in getattr(check, "PROBES", []) if not stats.get(p)],
        "known_findings_hit": dict(known),
        "components": check.COMPONENTS,
        "log_digest": _digest(digests),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.LEVEL, "coverage": coverage,
          "assumptions": list(getattr(check, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": 0 if viol is None else 1}
    code = 0
    if errors and viol is None:
        print("HARNESS ERROR\n" + errors[0], flush=True)
        code = 2
    if viol is not None:
        i, v = viol
        path = report(modname, check, seed, i, tier, v)
        ev["coverage"]["violation"] = {"run": i, **v, "replay": path}
        print(f"{prop}: run {i} of seed {seed}: {v['kind']}: {v['msg']}", flush=True)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        code = 1
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if code == 0:
        ids = {k["id"]: k for k in known_list}
        for k in sorted(known):
            if k not in ids:
                print(f"HARNESS ERROR: {k} is not in known_findings.json")
                return 2
        for k in known_list:
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']} (met in {known.get(k['id'], 0)} runs)")
    print(f"{prop}: {evals} runs, {nontriv} non-trivial, {len(sigs)} distinct, {wall:.1f} s, exit {code}", flush=True)
    if ev["coverage"]["probes_at_zero"]:
        print(f"{prop}: probes at zero: {ev['coverage']['probes_at_zero']}")
    return code


def _digest(ds):
    import hashlib
    return hashlib.sha256("".join(ds).encode()).hexdigest()[:16]


def report(modname, check, seed, i, tier, v):
    """Minimise, write the replay file, and replay it in a fresh process."""
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.PROP}-{seed}-{i}.json")
    scn = scenario(check, seed, i, tier)
    tried = 0
    try:
        ctx = mp.get_context("fork")
        if v["kind"] == "process" or os.environ.get("SIM_NO_MIN"):
            raise RuntimeError("not attempted if the process dies")
        if "hash_seeds" in v:
            scn, tried = hashseed.minimise(check, scn, v["kind"])
        else:
            with ctx.Pool(1) as pool:
                scn, tried = pool.apply_async(_min, ((modname, seed, i, tier, v["kind"]),)).get(timeout=150)
                pool.terminate()
    except Exception as e:  # the un-minimised scenario is still a valid replay
        print(f"{check.PROP}: minimisation stopped: {e!r}", flush=True)

    def write(s, minimised):
        with open(path, "w") as f:
            json.dump({"property": check.PROP, "seed": seed, "run": i, "tier": tier, "violation": v,
                       "minimised": minimised, "shrink_attempts": tried, "scenario": s}, f, indent=1)
            f.write("\n")

    write(scn, tried > 0)
    if os.environ.get("SIM_NO_MIN"):  # mutation campaigns
        return path
    for attempt in range(2):
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.PROP, "--replay", path],
                           capture_output=True, text=True, timeout=300)
        if p.returncode == 1 and f"VIOLATION property={check.PROP}" in p.stdout:
            print(f"{check.PROP}: the replay file reproduces the violation in a fresh process", flush=True)
            break
        write(scenario(check, seed, i, tier), False)
    else:
        print(f"{check.PROP}: WARNING: replay in a fresh process gave exit {p.returncode}", flush=True)
    return path


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    v = isolated(check, d["scenario"]) if d["violation"]["kind"] == "process" else None
    if "hash_seeds" in d["violation"]:
        out = hashseed.execute(check, d["scenario"])
    else:
        out = execute(check, d["scenario"]) if v is None else {"violation": v, "digest": None, "stats": {}}
    v = out["violation"]
    print(json.dumps({"digest": out["digest"], "violation": v, "stats": out["stats"]}))
    if v is None:
        print(f"{check.PROP}: the scenario holds")
        return 0
    print(f"{v['kind']}: {v['msg']}")
    print(f"VIOLATION property={check.PROP} replay={path}")
    return 1

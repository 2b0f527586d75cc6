"""determinism.py CHECK...: the same seeds with other worker counts, hash seeds and in another order give the same runs."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for c in sys.argv[1:]:
    ds = []
    for k, (w, h) in enumerate([(8, "0"), (8, "1"), (3, "2"), (5, "random")]):
        out = f"/tmp/det-{os.getpid()}-{k}"
        subprocess.run([sys.executable, os.path.join(V, "check.py"), c, "--runs", os.environ.get("RUNS", "200")], env={
            **os.environ, "SIM_WORKERS": str(w), "PYTHONHASHSEED": h, "SIM_OUT": out}, capture_output=True)
        ds.append(json.load(open(f"{out}/evidence/{c}.json"))["coverage"]["log_digest"])
    print(c, "deterministic" if len(set(ds)) == 1 else f"DIFFERS {ds}", flush=True)
    bad += len(set(ds)) > 1
sys.exit(bad > 0)

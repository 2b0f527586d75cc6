"""one.py Cxx i [seed]: a single run in this process."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simlib import runner  # noqa: E402
import importlib  # noqa: E402
import faulthandler  # noqa: E402
faulthandler.enable()
m = importlib.import_module("simlib.checks." + sys.argv[1].lower())
i, seed = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
if "--dump" in sys.argv:
    print(json.dumps(runner.scenario(m, seed, i, "quick"), indent=1))
out = runner._one(("simlib.checks." + sys.argv[1].lower(), seed, i, "quick"))
out.pop("sample", None)
print(out)
os._exit(0)

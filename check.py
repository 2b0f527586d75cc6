#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--runs N] [--replay FILE]   (VERIF_SEED, VERIF_TIER, SIM_WORKERS)"""
import os
import sys

if sys.prefix == sys.base_prefix and os.path.exists("/opt/venv/bin/python") and "SIM_NOEXEC" not in os.environ:
    os.environ["SIM_NOEXEC"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    try:
        from simlib import runner

        if "--hash-stage" in sys.argv:  # one of a pair of processes, see hashseed.py
            from simlib import hashseed

            hashseed.child(sys.argv[1], *sys.argv[3:])
            os._exit(0)
        code = runner.main("simlib.checks." + sys.argv[1].lower(), sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)

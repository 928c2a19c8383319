#!/opt/venv/bin/python
"""setup_cmd: nothing to build; shows that the simulator runs and repeats itself here."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))


def main():
    from vf import preload, runner  # noqa: F401
    bad = 0
    for s in range(20):
        spec = {"world": "world_prog", "wl": runner.world("world_prog").generate(s, {}), "seed": s}
        a, b = runner.run_spec(spec), runner.run_spec(spec)
        if a["harness"] or a["hash"] != b["hash"]:
            bad += 1
            print("run %d: %s" % (s, a["harness"] or "does not repeat itself"))
    print("simulator self-check: 20 runs repeated, %d wrong" % bad)
    return 0   # the checks themselves judge


if __name__ == "__main__":
    sys.exit(main())

#!/opt/venv/bin/python
"""Replays a file check.py wrote: replay.py FILE. Exit 1 if the violation shows again, 0 if not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0", VF_FIXED="1"))
    raw = sys.argv[1] == "-"
    spec = json.load(sys.stdin if raw else open(sys.argv[1]))
    from vf import preload, props, runner  # noqa: F401
    s = {k: spec[k] for k in ("world", "wl", "seed", "knobs", "choices") if spec.get(k) is not None}
    s["trace_full"] = spec.get("trace_full", True)
    if os.environ.get("VF_DEBUG"):
        s["debug"] = True
    r = runner.run_spec(s)
    if raw:
        print(json.dumps(r, default=repr))
        return 0
    for t in r.get("trace") or []:
        print(*t)
    print(r.get("stderr") or "")
    p = props.get(spec["property"])
    v = props.relevant(p, r["violations"])
    for k, m in v:
        print("violation %s: %s" % (k, m))
    if r["harness"]:
        print(r["harness"])
    print("history hash %s, recorded %s" % (r["hash"], spec.get("hash")))
    if v:
        print("VIOLATION property=%s replay=%s" % (p["id"], sys.argv[1]))
    return 1 if v else 0


if __name__ == "__main__":
    sys.exit(main())

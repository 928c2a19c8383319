"""One simulated run in a forked child; a campaign over many of them."""
import contextlib
import importlib
import io
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import traceback

WORLDS = {}


def world(name):
    if name not in WORLDS:
        WORLDS[name] = importlib.import_module("vf." + name)
    return WORLDS[name]


def _child(w, spec, wfd):
    from . import kernel, net, seams
    import gc
    gc.disable()
    sys.setrecursionlimit(spec.get("recursion", 1000))
    sim = kernel.Sim(spec["seed"], spec.get("choices"), spec.get("knobs"), spec.get("trace_full", False))
    kernel.SIM = sim
    net.NET = net.Net(sim)
    sim.world = None
    err = io.StringIO()
    real_out, real_err = sys.stdout, sys.stderr
    done = [False]

    def finish(extra):
        if done[0]:
            return
        done[0] = True
        sim.driver_done = True
        res = {
            "violations": extra.get("violations", []), "harness": extra.get("harness") or sim.harness_error,
            "hash": sim.trace_hash, "choices": sim.choices, "cpos": sim.cpos, "steps": sim.steps,
            "switches": sim.switches, "advances": sim.advances, "preemptions": sim.preemptions,
            "sim_time": round(sim.now - sim.start, 4), "faults": sim.faults, "probes": sim.probes,
            "stats": extra.get("stats", {}), "calls": net.NET.ncalls, "events": len(sim.trace),
        }
        if sim.trace_full:
            res["trace"] = sim.trace
            res["stderr"] = err.getvalue()[-6000:]
        data = json.dumps(res, default=repr).encode()
        os.write(wfd, len(data).to_bytes(8, "big"))
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]
        os._exit(0)

    def on_abort(why):
        v = [("stuck", why)]
        extra = {"violations": v}
        try:
            f = getattr(w, "on_stuck", None)
            if f is not None:
                extra["violations"] = f(sim, spec["wl"], why)
        except BaseException:  # noqa
            extra["harness"] = traceback.format_exc()
        finish(extra)

    sim.on_abort = on_abort
    sim.adopt_main()
    extra = {}
    if spec.get("_scratch"):
        w.wl_scratch[0] = spec["_scratch"]
    try:
        seams.reset_for_run(sim)
        if not spec.get("debug"):
            sys.stdout = io.StringIO()
            sys.stderr = err
        kernel.enable_line_hook(sim)
        extra = w.execute(sim, spec["wl"])
    except BaseException as e:  # noqa
        judging = any(f.name == "judge" or f.filename.endswith("oracle.py") for f in traceback.extract_tb(e.__traceback__))
        if judging:   # what the code under test did has no place in the model at all
            extra = {"violations": [("judge.broken", "what the run shows cannot be judged: %s" % traceback.format_exc()[-600:])]}
        else:
            extra = {"harness": traceback.format_exc()}
    finally:
        kernel.disable_line_hook()
        sys.stdout, sys.stderr = real_out, real_err
    finish(extra)


def run_spec(spec, wall=120.0):
    """spec: {world, wl, seed, choices?, knobs?}. Forks; returns the child's report."""
    w = world(spec["world"])
    if not getattr(w, "SCRATCH", False):
        return _run_spec(w, spec, wall)
    d = tempfile.mkdtemp(prefix="vf-run-")
    try:
        return _run_spec(w, dict(spec, _scratch=d), wall)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _run_spec(w, spec, wall):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            _child(w, spec, wfd)
        finally:
            os._exit(96)
    os.close(wfd)
    buf = b""
    res = None
    import time
    from . import seams
    t0 = seams._real_monotonic()
    while True:
        left = wall - (seams._real_monotonic() - t0)
        if left <= 0:
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
        if len(buf) >= 8 and len(buf) - 8 >= int.from_bytes(buf[:8], "big"):
            break
    os.close(r)
    timed = seams._real_monotonic() - t0 >= wall
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) - 8 >= int.from_bytes(buf[:8], "big"):
        return json.loads(buf[8:])
    if timed:
        return {"violations": [("stuck.wall", "the code under test kept the processor for %ss of real time" % wall)], "harness": None,
                "hash": 0, "choices": [], "steps": 0, "switches": 0, "advances": 0, "preemptions": 0, "sim_time": 0, "faults": {},
                "probes": {}, "stats": {}, "calls": 0, "events": 0, "wall": True, "cpos": 0}
    return {"violations": [], "harness": "child died with status %d" % st, "hash": 0, "choices": [], "steps": 0, "switches": 0,
            "advances": 0, "preemptions": 0, "sim_time": 0, "faults": {}, "probes": {}, "stats": {}, "calls": 0, "events": 0, "cpos": 0}

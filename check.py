#!/opt/venv/bin/python
"""Decides one property: seeded simulated runs of the worlds that concern it.

check.py --property R01 [--tier quick|thorough] [--runs N] [--wall S]
"""
import argparse
import collections
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def fixed_process():
    """The same hash seed and address layout in every process."""
    if os.environ.get("PYTHONHASHSEED") == "0" and os.environ.get("VF_FIXED") == "1":
        return
    env = dict(os.environ, PYTHONHASHSEED="0", VF_FIXED="1")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def spec_for(p, i, base):
    """The i-th run of property p."""
    pr = p["profiles"][i % len(p["profiles"])]
    return pr["world"], pr.get("prof") or {}, base + i, pr.get("knobs") or {}


def make(world, prof, seed, knobs):
    from vf import runner
    wl = runner.world(world).generate(seed, prof)
    return {"world": world, "wl": wl, "seed": seed, "knobs": knobs}


def worker(a):
    from vf import preload, props, runner  # noqa: F401
    p = props.get(a.property)
    base, w, n, total = a.base, a.worker, a.workers, a.runs
    t_end = time.monotonic() + a.wall
    agg = collections.Counter()
    faults, probes, stats = collections.Counter(), collections.Counter(), collections.Counter()
    seen = set()
    nontrivial = set()
    samples = []
    det = [0, 0]
    i = w
    outp = os.fdopen(os.dup(1), "w")
    while i < total and time.monotonic() < t_end:
        world, prof, seed, knobs = spec_for(p, i, base)
        spec = make(world, prof, seed, knobs)
        r = runner.run_spec(spec)
        agg["runs"] += 1
        agg["sim_ms"] += int(r["sim_time"] * 1000)
        for k in ("steps", "switches", "advances", "preemptions", "events", "calls"):
            agg[k] += r[k]
        faults.update(r["faults"])
        probes.update(r["probes"])
        for k, v in r["stats"].items():
            if isinstance(v, (int, bool)):
                stats[k] += int(v)
        seen.add(r["hash"])
        if r["events"] >= 4:
            nontrivial.add(r["hash"])
        if r["harness"]:
            outp.write(json.dumps({"harness": r["harness"][-1500:], "i": i}) + "\n")
            outp.flush()
        v = props.relevant(p, r["violations"])
        if v:
            outp.write(json.dumps({"i": i, "violations": v, "wall": bool(r.get("wall"))}) + "\n")
            outp.flush()
        elif r["violations"]:
            agg["other_violations"] += 1
            stats["other:" + r["violations"][0][0]] += 1
        if (i // n) % 97 == 5:
            r2 = runner.run_spec(spec)
            det[0] += 1
            if r2["hash"] != r["hash"] or r2["cpos"] != r["cpos"]:
                det[1] += 1
        if len(samples) < 1 and r["events"] >= 8 and w < 3:
            samples.append({"seed": seed, "world": world, "workload": json.dumps(spec["wl"], ensure_ascii=False)[:1500], "faults": r["faults"],
                            "simulated_s": r["sim_time"], "outcome": r["stats"]})
        i += n
    outp.write(json.dumps({"done": 1, "agg": agg, "faults": faults, "probes": probes, "stats": stats, "seen": sorted(seen),
                           "nontrivial": sorted(nontrivial), "samples": samples, "det": det}) + "\n")
    outp.flush()


def one(spec):
    """Run one spec in a fresh interpreter."""
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "-"], input=json.dumps(spec), capture_output=True, text=True,
                       env=dict(os.environ, PYTHONHASHSEED="0", VF_FIXED="1"))
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:  # noqa: BLE001
        return {"violations": [], "harness": p.stdout[-500:] + p.stderr[-1500:], "hash": 0}


def report(p, spec, viol, a, minimise=True):
    """Minimise, write the replay file, confirm it in a fresh process. Returns the path, or None."""
    from vf import preload, props, runner, shrink  # noqa: F401
    w = runner.world(spec["world"])
    want = {k for k, _ in viol}

    def fails(s):
        r = runner.run_spec(s)
        if r["harness"]:
            return None
        got = {k for k, _ in props.relevant(p, r["violations"])}
        return r if got & want else None

    best, r = spec, None
    if minimise:
        legal = getattr(w, "legal", lambda wl: True)
        b, r = shrink.minimise(spec, fails, legal, budget=a.shrink, editable=getattr(w, "editable", lambda wl, p: True))
        if b is not None:
            best = b
    path = os.path.join(HERE, "out", "replay", "%s-%s.json" % (p["id"], spec["seed"]))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    final = None
    for cand in ([best, spec] if best is not spec else [spec]):
        r1 = one(dict(cand, trace_full=True))
        v1 = props.relevant(p, r1["violations"])
        if {k for k, _ in v1} & want:
            r2 = one(dict(cand, trace_full=True))
            final = (cand, r1, v1, r1["hash"] == r2["hash"])
            break
    if final is None:
        return None
    cand, r1, v1, exact = final
    with open(path, "w") as f:
        json.dump({"property": p["id"], "title": p["title"], "violations": v1, "world": cand["world"], "wl": cand["wl"], "seed": cand["seed"],
                   "knobs": cand.get("knobs") or {}, "choices": cand.get("choices"), "hash": r1["hash"], "replays_exactly": exact,
                   "original_seed": spec["seed"], "history": r1.get("trace")}, f, indent=1, ensure_ascii=False)
    print("property %s (%s): %s" % (p["id"], p["title"], "; ".join("%s: %s" % (k, m) for k, m in v1[:3])))
    print("replay: %s replay.py %s   (exact: %s)" % (sys.executable, path, exact))
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--shrink", type=float, default=60.0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--worker", type=int)
    ap.add_argument("--base", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    fixed_process()
    if a.worker is not None:
        worker(a)
        return 0
    from vf import props
    p = props.get(a.property)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    base = seed * 10000000
    runs = a.runs or p[tier]["runs"]
    wall = a.wall or p[tier]["wall"]
    t0 = time.monotonic()
    print("property %s tier %s seed %d: up to %d runs, %.0f s, %d workers" % (p["id"], tier, seed, runs, wall, a.workers))
    sys.stdout.flush()
    found, known, harness = [], [], []
    # known findings and pinned histories first
    for pin in props.pins(p["id"]):
        spec = {k: pin[k] for k in ("world", "wl", "seed", "knobs", "choices") if pin.get(k) is not None}
        r = one(spec)
        if r.get("harness"):
            harness.append({"i": pin["name"], "harness": r["harness"]})
        v = props.relevant(p, r["violations"])
        if pin.get("known"):
            if v:
                known.append(pin)
                print("KNOWN-FINDING: property=%s %s" % (p["id"], pin["what"]))
        elif v:
            found.append(("pin", spec, v))
    procs = []
    if not found or a.keep_going:
        for w in range(a.workers):
            cmd = [sys.executable, os.path.abspath(__file__), "--property", p["id"], "--runs", str(runs), "--wall", str(wall), "--workers",
                   str(a.workers), "--worker", str(w), "--base", str(base)]
            procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED="0", VF_FIXED="1")))
    import selectors
    sel = selectors.DefaultSelector()
    for q in procs:
        sel.register(q.stdout, selectors.EVENT_READ, q)
    done = []
    deadline = time.monotonic() + wall + 200
    stop = False
    while sel.get_map() and not stop:
        for key, _ in sel.select(timeout=5):
            line = key.fileobj.readline()
            if not line:
                sel.unregister(key.fileobj)
                continue
            d = json.loads(line)
            if d.get("done"):
                done.append(d)
            elif "harness" in d:
                harness.append(d)
            else:
                world, prof, s, knobs = spec_for(p, d["i"], base)
                found.append((d["i"], (world, prof, s, knobs), d["violations"]))
                if not a.keep_going:
                    stop = True
        if time.monotonic() > deadline:
            harness.append({"i": -1, "harness": "workers did not finish in time"})
            break
    for q in procs:
        if q.poll() is None:
            q.kill()
        q.wait()
    code = 0
    nviol = 0
    unrep = 0
    reported = set()
    for i, spec, v in found:
        sig = tuple(sorted({k for k, _ in v}))
        if sig in reported:
            nviol += 1
            continue
        if isinstance(spec, tuple):
            from vf import preload  # noqa: F401
            spec = make(*spec)
        path = report(p, spec, v, a)
        if path is None:
            unrep += 1
            print("not reproduced in a fresh process: run %s %s" % (i, v[:1]))
            continue
        reported.add(sig)
        nviol += 1
        code = 1
        print("VIOLATION property=%s replay=%s" % (p["id"], path))
    agg = collections.Counter()
    faults, probes, stats = collections.Counter(), collections.Counter(), collections.Counter()
    seen, nontriv, samples, det = set(), set(), [], [0, 0]
    for d in done:
        agg.update(d["agg"])
        faults.update(d["faults"])
        probes.update(d["probes"])
        stats.update(d["stats"])
        seen.update(d["seen"])
        nontriv.update(d["nontrivial"])
        samples += d["samples"]
        det[0] += d["det"][0]
        det[1] += d["det"][1]
    dt = time.monotonic() - t0
    ev = {
        "property": p["id"], "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(dt, 2), "violations": nviol,
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(nontriv),
            "rule": p["rule"] + " One evaluation is one simulated run of one seed; it counts as distinct by the hash of its recorded history "
                    "(simulated time, kind and content of every request, callback, log line and outcome) and as non-trivial with at least 4 "
                    "recorded events.",
            "samples": samples[:3] or ["stopped at the first violation"],
            "runs_per_hour": int(agg["runs"] / dt * 3600) if dt else 0, "seeds": [base, base + runs - 1], "distinct_histories": len(seen),
            "simulated_s": round(agg["sim_ms"] / 1000.0, 1), "scheduler_steps": agg["steps"], "context_switches": agg["switches"],
            "clock_advances": agg["advances"], "preemptions_inside_code": agg["preemptions"], "rpc_calls": agg["calls"],
            "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())), "outcomes": dict(sorted(stats.items())),
            "determinism_rechecks": {"runs_repeated": det[0], "differing": det[1]}, "known_findings": [k["name"] for k in known],
            "harness_errors": len(harness), "unreproduced": unrep, "components": p["components"],
            "profiles": [dict(world=x["world"], dials=x.get("prof") or {}) for x in p["profiles"]],
        },
        "assumptions": p["assumptions"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", p["id"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%d runs in %.1f s, %d distinct histories, %.0f simulated s, faults %s, repeats %s" % (
        agg["runs"], dt, len(seen), agg["sim_ms"] / 1000.0, dict(faults), det))
    if code == 0 and (harness or unrep or (procs and agg["runs"] == 0)):
        for h in harness[:5]:
            print("HARNESS run %s: %s" % (h["i"], h["harness"]))
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())

"""World: one user program, run by the real executor script or the real inline host,
against the stub engine over the simulated network."""
import asyncio
import concurrent.futures.thread as cft
import contextlib
import io
import json
import os
import random
import runpy
import sys
import threading

import pulumi
import pulumi.runtime

from . import engine as engmod
from . import interp
from . import kernel
from . import net as netmod
from . import preload
from . import seams

EXEC = os.path.join(preload.REPO, "sdk/python/cmd/pulumi-language-python-exec")
DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prog_dir")
MAIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prog_main.py")


def tune_net(net, sim, knobs):
    net.fast = {"/pulumirpc.Engine/Log"}
    spread = knobs.get("spread")

    def req(m):
        return 0.0005 if m in net.fast else sim.latency(spread)

    net.req_latency = req
    net.resp_latency = req


def interpreter_exit(sim):
    """What CPython does after the main module ends: thread-pool exit hook, then non-daemon threads."""
    cft._python_exit()
    for t in list(sim.threads):
        if t.obj is not None and not t.daemon:
            t.obj.join()


class Outcome:
    def __init__(self):
        self.ok = None
        self.detail = ""
        self.exc = None
        self.code = None


def places(start):
    """The working directory and the program, as the language host states them."""
    here = os.path.dirname(MAIN)
    pwd = {"here": here, "up": os.path.dirname(here), "root": "/", None: os.getcwd()}[start.get("pwd")]
    prog = DIR if start.get("prog") == "dir" else MAIN
    return pwd, os.path.relpath(prog, pwd) if start.get("rel") else prog


def run_exec(sim, wl, rt, addr, eng_addr):
    out = Outcome()
    interp.CURRENT = rt
    env = {}
    if wl.get("config"):
        import json
        env["PULUMI_CONFIG"] = json.dumps(wl["config"])
        env["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps(wl.get("config_secret_keys") or [])
    for k, v in (wl.get("config_env") or {}).items():
        env["PULUMI_CONFIG_" + k] = v
    env.update(wl.get("proc_env") or {})
    os.environ.update(env)
    start = wl.get("start") or {}
    pwd, prog = places(start)
    rt.expected = {"args": list(start.get("args") or []), "program": os.path.realpath(os.path.join(pwd, prog)), "cwd": os.path.realpath(pwd),
                   "project": wl.get("project", "proj"), "stack": wl.get("stack", "stk"), "organization": wl.get("org", "org"), "preview": bool(wl.get("preview")),
                   "name": "__main__"}
    argv = sys.argv
    sys.argv = ["pulumi-language-python-exec", "--monitor", addr, "--engine", eng_addr,
                "--project", wl.get("project", "proj"), "--stack", wl.get("stack", "stk"),
                "--parallel", str(wl.get("parallel", 4)), "--dry_run", "true" if wl.get("preview") else "false",
                "--organization", wl.get("org", "org")] + (["--pwd", pwd] if start.get("pwd") else []) + [prog] + list(start.get("args") or [])
    try:
        runpy.run_path(EXEC, run_name="__main__")
        out.ok = True
    except SystemExit as e:
        out.ok = e.code in (0, None)
        out.detail = "exit code %r" % (e.code,)
        out.code = e.code
    except BaseException as e:  # noqa  an uncaught exception is exit code 1
        out.ok = False
        out.detail = "%s: %s" % (type(e).__name__, e)
        out.exc = e
    finally:
        sys.argv = argv
        interpreter_exit(sim)
    return out


def run_inline(sim, wl, rt, addr, eng_addr):
    from pulumi.automation._server import LanguageServer
    from pulumi.runtime.proto import language_pb2
    out = Outcome()
    os.environ.update({"PULUMI_CONFIG_" + k: v for k, v in (wl.get("config_env") or {}).items()})
    os.environ.update(wl.get("proc_env") or {})

    def program():
        interp.run_ops(rt, rt.wl["ops"], {}, None)

    req = language_pb2.RunRequest(project=wl.get("project", "proj"), stack=wl.get("stack", "stk"), monitor_address=addr,
                                  args=[eng_addr], dryRun=bool(wl.get("preview")), parallel=4, organization=wl.get("org", "org"),
                                  config=wl.get("config") or {}, configSecretKeys=wl.get("config_secret_keys") or [])
    server = LanguageServer(program)
    try:
        resp = server.Run(req, None)
        out.ok = not resp.error
        out.detail = resp.error
    except BaseException as e:  # noqa
        out.ok = False
        out.detail = "Run raised %s: %s" % (type(e).__name__, e)
        out.exc = e
    with contextlib.suppress(BaseException):
        server.on_pulumi_exit()
    return out


def run(sim, wl):
    """Execute the workload. Returns (engine, rt, outcome)."""
    net = netmod.NET
    tune_net(net, sim, wl)
    eng = engmod.Engine(sim, net, wl)
    rt = interp.RT(wl)
    sim.world = (eng, rt)
    if wl.get("host") == "inline":
        out = run_inline(sim, wl, rt, eng.addr, eng.eng_addr)
    else:
        out = run_exec(sim, wl, rt, eng.addr, eng.eng_addr)
    sim.log("outcome", out.ok)
    return eng, rt, out


def execute(sim, wl):
    eng, rt, out = run(sim, wl)
    from .oracle import Oracle
    o = Oracle(wl, eng, rt, out)
    v = o.run() + launched(wl, eng, rt, out, o.m)
    return {"violations": v, "stats": stats(wl, eng, rt, o)}


def on_stuck(sim, wl, why):
    eng, rt = sim.world
    from .oracle import Oracle
    return Oracle(wl, eng, rt, None).run(stuck=why)


def stats(wl, eng, rt, o):
    return {"ok": o.out.ok, "errors": bool(o.m.errors), "requests": len(eng.requests), "callbacks": len(rt.fired),
            "preview": bool(wl.get("preview")), "dead": eng.dead}


def generate(seed, prof):
    from . import gen
    prof = dict(prof or {})
    rng = random.Random("start:%s" % seed)
    k = prof.pop("start", 100)
    wl = gen.generate(seed, prof)
    if wl.get("host") != "inline" and rng.random() * 1000 < k:
        wl["start"] = {"pwd": rng.choice((None, "here", "up", "root")), "prog": rng.choice(("file", "dir")), "rel": rng.random() < 0.5,
                       "args": rng.sample(("alpha", "be ta", "", "x=1", "{}", "alpha"), rng.randint(0, 3))}
    return wl


HEAD = "Program failed with an unhandled exception:"


def launched(wl, eng, rt, out, m):
    """What the program was given when it was started, and what became of its failure."""
    v = []
    inline = wl.get("host") == "inline"
    got = getattr(rt, "started", None)
    if got is not None and not inline:
        exp = rt.expected
        for k in exp:
            if got[k] != exp[k]:
                v.append(("start." + k, "the program was started with %s %r, expected %r" % (k, got[k], exp[k])))
    own = {x[1] for x in m.logs}
    shown = [l for l in eng.logs if l["sev"] == 3 and l["msg"] not in own]
    if out.ok:
        if shown:
            v.append(("fail.spurious", "the program succeeded, and this was logged: %s" % shown[0]["msg"][-300:]))
        if out.code not in (0, None):
            v.append(("fail.status", "the program succeeded with status %r" % (out.code,)))
        return v
    if not inline and out.code == 32 and not shown:
        v.append(("fail.status", "status 32 says that the failure was shown, and it was not"))
    if eng.dead:
        return v
    if len(shown) != 1:
        v.append(("fail.shown", "the program failed (%s), and %d messages show it: %s" % (out.detail[-200:], len(shown), [l["msg"][-100:] for l in shown])))
        return v
    msg = shown[0]["msg"]
    if shown[0]["urn"] or shown[0]["eph"] or shown[0]["stream"]:
        v.append(("fail.shown", "the failure was logged as %r" % (shown[0],)))
    if inline:
        if out.exc is None and out.detail != msg:
            v.append(("fail.text", "the answer says %s, the message %s" % (out.detail[-200:], msg[-200:])))
    elif msg.startswith(HEAD) != (out.code == 32):
        v.append(("fail.status", "status %r for: %s" % (out.code, msg[:200])))
    said = texts(wl)
    if said is not None and not wl["features"].get("_err") and all(e.startswith(NAMED) for e in m.errors) and not any(x in msg for x in said):
        v.append(("fail.text", "the message names none of %s: %s" % (sorted(said)[:5], msg[-500:])))
    top = [op for op in wl["ops"] if op.get("op") == "raise"]
    if top and m.errors == ["program raises: " + top[0]["msg"]] and not top[0].get("bad") and json.dumps(wl["ops"]).count('"op": "raise"') == 1:
        op = top[0]
        if op.get("run_error"):
            if msg != op["msg"]:
                v.append(("fail.text", "the program raised RunError(%r), and the message is %r" % (op["msg"], msg[-300:])))
        elif not inline:
            first = [x.strip() for x in msg.splitlines() if x.strip().startswith("File ")][:1]
            pwd, prog = places(wl.get("start") or {})
            main = os.path.join(DIR, "__main__.py") if (wl.get("start") or {}).get("prog") == "dir" else MAIN
            named = [os.path.realpath(os.path.join(pwd, x.split('"')[1])) for x in first]
            if named != [os.path.realpath(main)] or msg.splitlines()[-1].split(": ", 1)[-1] != op["msg"]:
                v.append(("fail.text", "the message does not begin with the program's own line, or does not end with its error: %s" % msg[:600]))
    return v


NAMED = ("engine fails", "callback raises", "program raises", "failing coroutine")


def texts(wl):
    """How the failures of this workload name themselves; None if one is the library's to name."""
    out, skip = set(), []

    def walk(x):
        if isinstance(x, dict):
            if x.get("failures"):
                out.update(("no such resource", "bad ", "failed: "))
            if x.get("op") == "raise":
                if x.get("bad"):
                    skip.append(x)
                out.add(x["msg"])
            if x.get("code") == "unavailable":
                out.add("Resource monitor has terminated")
            for k, y in x.items():
                if k in ("err", "raise", "failcoro") and isinstance(y, str):
                    out.add(y)
                walk(y)
        elif isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] == "failcoro" and isinstance(x[-1], str):
                out.add(x[-1])
            if len(x) == 2 and x[0] == "cfg" and isinstance(x[1], dict):
                out.update(("Configuration '", "Missing required configuration variable"))
            for y in x:
                walk(y)
    walk(wl)
    return None if skip else out


def legal(wl):
    """May the minimiser consider this workload? Brings its derived fields up to date."""
    from .model import Model
    m = Model(wl).run()
    mixed, circ = m.wait_cycles()
    wl.pop("_selfref", None)
    if circ:
        wl["_selfref"] = 1
    return not mixed and not m.nested_wait and not m.unspecified and not m.invalid and m.refs_answerable(circ)

"""World: dynamic resources. Programs create them through the real SDK; afterwards the real dynamic provider process serves
the life of every resource - check, diff, create, read, update, delete - with many requests at once."""
import copy
import io
import json
import os
import pickle
import random
import runpy
import sys
import threading

import pulumi
from pulumi.runtime.proto import provider_pb2

from . import dyn_code
from . import engine as engmod
from . import interp
from . import kernel
from . import net as netmod
from . import wire
from .world_prog import EXEC, Outcome, interpreter_exit, tune_net
from .world_prov import Out

MAIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dyn_main.py")
RP = "/pulumirpc.ResourceProvider/"
KEY = "__provider"
METHODS = ("check", "diff", "create", "read", "update", "delete")
CUR = None


# ---------------------------------------------------------------- the program
class RT:
    def __init__(self, w, i, prog):
        self.w, self.i, self.prog = w, i, prog
        self.sim = w.sim
        self.res = {}
        self.provs = {}
        self.shared = {}
        self.changed = []
        self.meddled = set()
        self.main = None
        self.made = 0


def turned(v):
    """The same data, its dicts filled in the opposite order."""
    if isinstance(v, dict):
        return {k: turned(v[k]) for k in reversed(list(v))}
    return [turned(x) for x in v] if isinstance(v, list) else v


def provider(rt, j):
    """The provider objects of a program; several resources may use the same one."""
    spec = rt.w.wl["provs"][j]
    rt.made += 1
    spec = turned(spec) if rt.made % 2 else copy.deepcopy(spec)
    if spec["do"].get("table"):
        t = spec["do"]["table"]
        spec["do"]["table"] = {(tuple(k) if isinstance(k, list) else k): v for k, v in (t if rt.made % 2 else reversed(t))}
    if spec["shape"] == "main" and rt.main is not None:
        return rt.main(spec)
    if spec["shape"] == "local":
        return dyn_code.local(spec, tuple(spec["methods"]))
    return dyn_code.ModProvider(spec)


def looks(p):
    """Everything that can be seen of a provider object and its classes."""
    return repr(vars(p)), [(c.__name__, sorted((k, id(v)) for k, v in vars(c).items() if not k.startswith("__"))) for c in type(p).__mro__]


def make(rt, r):
    p = rt.provs.get(r["prov"])
    if p is None or r.get("fresh"):
        p = rt.provs[r["prov"]] = provider(rt, r["prov"])
    if r.get("share"):
        props = rt.shared.setdefault(r["share"], interp._copy(r["props"]))
    else:
        props = interp._copy(r["props"])
    for k, src in (r.get("from") or {}).items():
        props[k] = rt.res[src].id
    if "bump" in r:
        # the program changes its provider between two resources: each is served by what it was when that one was created
        for spec in [p.spec] if hasattr(p, "spec") else [k for o, k in dyn_code.HOLD if o is p]:
            spec["bump"] = r["bump"]
    before = dict(props)
    look = looks(p)
    cls = dyn_code.Named if r.get("cls") == "Named" else dyn_code.Res
    opts = None
    if r.get("deps") or r.get("protect"):
        opts = pulumi.ResourceOptions(depends_on=[rt.res[d] for d in r.get("deps") or []], protect=r.get("protect"))
    rt.res[r["n"]] = cls(rt, r, p, props, opts)
    if looks(p) != look:
        rt.meddled.add(r["n"])
    if {k: id(v) for k, v in props.items()} != {k: id(v) for k, v in before.items()}:
        rt.changed.append((r["n"], sorted(set(props) ^ set(before))))


def program(rt, main=None):
    rt.main = main
    for r in rt.prog:
        if r.get("after"):
            rt.res[r["after"]].urn.apply(lambda _, r=r: make(rt, r))
        else:
            make(rt, r)


# ---------------------------------------------------------------- the world
class World:
    def __init__(self, sim, wl):
        self.sim, self.wl = sim, wl
        self.engs, self.rts, self.outs = [], [], []
        self.calls = []
        self.answers = {}
        self.texts = {}
        self.v = []
        self.done = False
        self.prov_exit = None

    def bad(self, k, m):
        self.v.append((k, m))

    # called by provider code
    def called(self, who, method, args, bump=None):
        self.calls.append({"who": who, "method": method, "args": [None if a is None else interp.canon(strip(a)) for a in args], "rq": rq(args), "text": texts(args),
                           "t": self.sim.now, "over": None, "bump": bump})
        self.sim.log("provider", who, method, self.calls[-1]["rq"])
        return len(self.calls) - 1

    def returned(self, n):
        self.calls[n]["over"] = self.sim.now


def strip(a):
    return {k: v for k, v in a.items() if k != KEY} if isinstance(a, dict) else a


def rq(args):
    for a in reversed(args):
        if isinstance(a, dict) and "rq" in a:
            return a["rq"]
    return None


def texts(args):
    return [a.get(KEY) for a in args if isinstance(a, dict)]


def run_exec(sim, w, rt, eng):
    global CUR
    out = Outcome()
    CUR = rt
    argv = sys.argv
    sys.argv = ["pulumi-language-python-exec", "--monitor", eng.addr, "--engine", eng.eng_addr, "--project", eng.project, "--stack", eng.stack,
                "--parallel", "4", "--dry_run", "true" if eng.preview else "false", "--organization", "org", MAIN]
    try:
        runpy.run_path(EXEC, run_name="__main__")
        out.ok = True
    except SystemExit as e:
        out.ok, out.detail = e.code in (0, None), "exit code %r" % (e.code,)
    except BaseException as e:  # noqa
        out.ok, out.detail = False, "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = argv
    return out


def run_inline(sim, w, rt, eng):
    from pulumi.automation._server import LanguageServer
    from pulumi.runtime.proto import language_pb2
    out = Outcome()
    req = language_pb2.RunRequest(project=eng.project, stack=eng.stack, monitor_address=eng.addr, args=[eng.eng_addr], dryRun=eng.preview, parallel=4,
                                  organization="org")
    server = LanguageServer(lambda: program(rt))
    try:
        resp = server.Run(req, None)
        out.ok, out.detail = not resp.error, resp.error
    except BaseException as e:  # noqa
        out.ok, out.detail = False, "%s: %s" % (type(e).__name__, e)
    server.on_pulumi_exit()
    return out


def programs(sim, w):
    """Phase one."""
    wl = w.wl
    probe = {"z": 1, "y": {"b": 2, "a": 1}, "a": [3]}
    before = (pickle.Pickler, pickle._dumps(probe))
    for i, prog in enumerate(wl["progs"]):
        sub = {"project": "p%d" % i, "stack": "s%d" % i, "preview": wl.get("preview"), "_plans": wl.get("_plans") or {}}
        w.engs.append(engmod.Engine(sim, netmod.NET, sub, addr="mon:%d" % i, eng_addr="eng:%d" % i, tag="e%d" % i))
        w.rts.append(RT(w, i, prog))
        w.outs.append(None)
    if wl["host"] == "exec":
        w.outs[0] = run_exec(sim, w, w.rts[0], w.engs[0])
    else:
        def go(i):
            w.outs[i] = run_inline(sim, w, w.rts[i], w.engs[i])

        ts = [threading.Thread(target=go, args=(i,), name="inline-%d" % i) for i in range(len(w.rts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    after = (pickle.Pickler, pickle._dumps(probe))
    if before != after:
        w.bad("dyn.meddled", "creating dynamic resources changed how the program's own objects are pickled")
    for i, (rt, eng) in enumerate(zip(w.rts, w.engs)):
        registered(w, rt, eng, w.outs[i])


def registered(w, rt, eng, out):
    """What phase one must have done."""
    if not out.ok:
        w.bad("end.false_failure", "program %d failed although nothing was wrong: %s" % (rt.i, out.detail[-300:]))
    regs = {}
    for d in eng.requests:
        if d["rpc"] == "register" and d["type"] != "pulumi:pulumi:Stack":
            if d["name"] in regs:
                w.bad("reg.dup", "%s was registered twice" % d["name"])
            regs[d["name"]] = d
    for n in sorted(rt.meddled):
        w.bad("dyn.meddled", "creating %s changed its provider object or the provider's class" % n)
    for n, extra in rt.changed:
        w.bad("dyn.props", "the dict of properties given to %s was changed (%s)" % (n, ", ".join(extra)))
    for r in rt.prog:
        d = regs.pop(r["n"], None)
        if d is None:
            if out.ok:
                w.bad("reg.missing", "%s was never registered" % r["n"])
            continue
        t = "pulumi-python:dynamic%s" % ("/mod:Thing" if r.get("cls") == "Named" else ":Resource")
        if d["type"] != t:
            w.bad("opts.type", "%s has type %s, expected %s" % (r["n"], d["type"], t))
        if d["protect"] != bool(r.get("protect")):
            w.bad("opts.protect", "%s: protect is %s" % (r["n"], d["protect"]))
        named = sorted("::" + x for x in set(r.get("deps") or []) | set((r.get("from") or {}).values()))
        if len(d["dependencies"]) != len(named) or any(not u.endswith(x) for u, x in zip(sorted(d["dependencies"], key=lambda u: u.rpartition("::")[2]), named)):
            w.bad("dep.wrong", "%s depends on %s, expected %s" % (r["n"], d["dependencies"], named))
        obj = dict(d["object"])
        text = obj.pop(KEY, None)
        exp = {k: v for k, v in r["props"].items() if v is not None}
        for k, src in (r.get("from") or {}).items():
            exp[k] = "id-" + src if not eng.preview else wire.UNKNOWN
        if wire.canon(obj) != wire.canon(exp):
            w.bad("obj.value", "%s was sent with %s, expected %s" % (r["n"], wire.canon(obj)[:300], wire.canon(exp)[:300]))
        if not isinstance(text, str) or not text:
            w.bad("dyn.text", "%s was sent without its provider" % r["n"])
            continue
        w.texts["%d/%s" % (rt.i, r["n"])] = text
        first = w.texts.setdefault("prov %d of %d changed to %s" % (r["prov"], rt.i, r.get("bump")), text)
        if first != text:
            w.bad("dyn.text", "the same provider was serialised differently for %s" % r["n"])
    for n in regs:
        w.bad("reg.unexpected", "%s was registered, the program never created it" % n)


# ---------------------------------------------------------------- phase two
def text_of(w, ref):
    return w.texts.get(ref)


def message(w, q):
    """(method name, request) or None if the provider's text is missing."""
    m = q["m"]

    def st(d, ref):
        d = dict(d, rq=q["id"])
        d[KEY] = text_of(w, ref)
        return None if d[KEY] is None else wire.to_struct(d)

    if m == "Configure":
        return m, provider_pb2.ConfigureRequest(acceptSecrets=True)
    if m in ("CheckConfig", "DiffConfig"):
        return m, provider_pb2.CheckRequest(urn="u") if m == "CheckConfig" else provider_pb2.DiffRequest(id="i", urn="u")
    if m in ("GetPluginInfo", "Cancel"):
        from google.protobuf import empty_pb2
        return m, empty_pb2.Empty()
    new = st(q["news"], q["prov"])
    if new is None:
        return None
    if m == "delete":
        return "Delete", provider_pb2.DeleteRequest(id=q["rid"], urn=q["urn"], properties=new)
    if m == "create":
        return "Create", provider_pb2.CreateRequest(urn=q["urn"], properties=new)
    if m == "read":
        return "Read", provider_pb2.ReadRequest(id=q["rid"], urn=q["urn"], properties=new)
    old = st(q["olds"], q.get("oldprov") or q["prov"])
    if old is None:
        return None
    old.fields["rq"].string_value = "old"
    if m == "check":
        return "Check", provider_pb2.CheckRequest(urn=q["urn"], olds=old, news=new)
    kind = {"diff": ("Diff", provider_pb2.DiffRequest), "update": ("Update", provider_pb2.UpdateRequest)}[m]
    return kind[0], kind[1](id=q["rid"], urn=q["urn"], olds=old, news=new)


REPLIES = {"Configure": provider_pb2.ConfigureResponse, "Check": provider_pb2.CheckResponse, "Diff": provider_pb2.DiffResponse,
           "Create": provider_pb2.CreateResponse, "Read": provider_pb2.ReadResponse, "Update": provider_pb2.UpdateResponse}


def serve(sim, w):
    """The dynamic provider process."""
    out, sys.stdout = sys.stdout, Out()
    sys.argv = ["pulumi-resource-pulumi-python", "engine:1"]
    first = len(netmod.SimServer.instances)
    w.port = None

    def main():
        try:
            runpy.run_module("pulumi.dynamic", run_name="__main__", alter_sys=True)
        except BaseException as e:  # noqa
            w.prov_exit = e
            w.bad("dyn.process", "the provider process ended: %s: %s" % (type(e).__name__, e))

    threading.Thread(target=main, name="provider", daemon=True).start()
    buf = sys.stdout.buffer
    for _ in range(400):
        if b"\n" in buf.getvalue() or w.prov_exit is not None:
            break
        sim.sleep(0.05)
    sys.stdout = out
    try:
        return "127.0.0.1:%d" % int(buf.getvalue().split(b"\n")[0])
    except ValueError:
        w.bad("dyn.process", "the provider process printed %r instead of its port" % buf.getvalue()[:80])
        return None


def lives(sim, w, target):
    """Phase two: the engine takes every resource through its life; steps of one resource one after the other."""
    def life(steps):
        for q in steps:
            if q.get("wait"):
                sim.sleep(q["wait"])
            msg = message(w, q)
            if msg is None:
                continue
            me = sim.current
            w.sent[q["id"]] = sim.now
            sim.log("send", q["id"], msg[0])
            c = netmod.NET.start(target, RP + msg[0], msg[1].SerializeToString(), lambda c: sim.wake(me))
            while not c.done:
                sim.block(None, "engine waits for %s" % q["id"])
            sim.log("answered", q["id"], c.error is None)
            w.answers[q["id"]] = (sim.now, msg[0], c.reply, c.error)

    w.sent = {}
    ts = [threading.Thread(target=life, args=(x,), name="life-%d" % i) for i, x in enumerate(w.wl["lives"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


# ---------------------------------------------------------------- oracle
def given(d, unknowns):
    """A property bag as the provider's code sees it."""
    def f(v):
        if v == wire.UNKNOWN:
            return "<unknown>" if unknowns else None
        if isinstance(v, dict):
            return {k: f(x) for k, x in v.items() if f(x) is not None and not k.startswith("__")}
        if isinstance(v, list):
            return [f(x) for x in v]
        return v
    return f(d)


def expect(spec, q):
    """(arguments its method gets or None, raise, response as plain data)."""
    m = q["m"]
    unk = m in ("check", "diff")
    news = dict(given(q["news"], unk), rq=q["id"])
    olds = dict(given(q["olds"], unk), rq="old") if q.get("olds") is not None else None
    args = {"check": [olds, news], "diff": [q["rid"], olds, news], "create": [news], "read": [q["rid"], news], "update": [q["rid"], olds, news],
            "delete": [q["rid"], news]}[m]
    over = m in spec["methods"]
    s = (spec["do"].get(m) or {}) if over else {}
    boom = s.get("raise") if over else ("must implement 'create'" if m == "create" else None)
    if m == "check":
        ins = dict(news)
        ins.update(s.get("set") or {})
        if s.get("kept") is not None:
            ins = dict(s["kept"])
        resp = {"inputs": ins, "failures": [list(f) for f in s.get("failures") or []]}
    elif m == "diff":
        resp = {"changes": {True: 2, False: 1, None: 0}[s.get("changes")], "replaces": s.get("replaces") or [], "stables": s.get("stables") or [],
                "dbr": bool(s.get("delete_before_replace"))}
    elif m == "delete":
        resp = {}
    else:
        outs = {}
        if m == "read" and not over:
            outs = dict(news)
        if s.get("outs") is not None:
            outs = dict(news) if s.get("echo") else {}
            outs.update(s["outs"])
        if s.get("kept") is not None:
            outs = dict(s["kept"])
        resp = {"outs": {k: v for k, v in outs.items() if v is not None}}
        if m == "create":
            resp["id"] = s.get("new_id")
        if m == "read":
            resp["id"] = s.get("new_id", q["rid"])
            if s.get("gone"):
                resp = {"outs": {}, "id": ""}
    return (args if over else None), boom, resp


def decode(name, data):
    d = REPLIES[name].FromString(data)
    if name == "Check":
        return {"inputs": wire.from_struct(d.inputs), "failures": [[f.property, f.reason] for f in d.failures]}
    if name == "Diff":
        return {"changes": d.changes, "replaces": list(d.replaces), "stables": list(d.stables), "dbr": d.deleteBeforeReplace}
    r = {"outs": wire.from_struct(d.properties)}
    if name in ("Create", "Read"):
        r["id"] = d.id
    return r


def judge(w):
    specs = w.wl["provs"]
    res = {"%d/%s" % (i, r["n"]): r for i, p in enumerate(w.wl["progs"]) for r in p}
    calls = {}
    for c in w.calls:
        calls.setdefault(c["rq"], []).append(c)
    for life in w.wl["lives"]:
        for q in life:
            got = calls.pop(q["id"], [])
            if q["id"] not in w.answers:
                continue
            t, name, reply, err = w.answers[q["id"]]
            who = "%s of %s" % (q["m"], q.get("prov"))
            if q["m"] in ("CheckConfig", "DiffConfig"):
                if err is None or err.code().name != "UNIMPLEMENTED":
                    w.bad("dyn.config", "%s must be unimplemented" % q["m"])
                continue
            if q["m"] in ("Configure", "GetPluginInfo", "Cancel"):
                if err is not None:
                    w.bad("dyn.config", "%s failed: %s" % (q["m"], err))
                elif q["m"] == "Configure" and REPLIES[name].FromString(reply).acceptSecrets:
                    w.bad("dyn.config", "the provider says it understands secrets, which its code does not")
                continue
            spec = specs[res[q["prov"]]["prov"]]
            args, boom, resp = expect(spec, q)
            if args is None:
                if got:
                    w.bad("dyn.call", "%s: code of %s ran, which does not implement it" % (who, got[0]["who"]))
            elif len(got) != 1:
                w.bad("dyn.call", "%s: the provider's code ran %d times" % (who, len(got)))
            else:
                c = got[0]
                if (c["who"], c["method"]) != (spec["id"], q["m"]):
                    w.bad("dyn.call", "%s: %s of provider %s ran, expected provider %s" % (who, c["method"], c["who"], spec["id"]))
                if c["bump"] != res[q["prov"]].get("bump"):
                    w.bad("dyn.call", "%s: the provider is as the program changed it for another resource" % who)
                a = [None if x is None else interp.canon(x) for x in args]
                if c["args"] != a:
                    w.bad("dyn.args", "%s: the provider's code got %s, expected %s" % (who, short(c["args"]), short(a)))
                if c["over"] is None or c["over"] > t:
                    w.bad("dyn.early", "%s was answered before the provider's code was done" % who)
            if boom is not None:
                if err is None:
                    w.bad("dyn.false_success", "%s was answered although the provider's code raised" % who)
                elif boom not in str(err.details()):
                    w.bad("dyn.error", "%s: the answer does not say why: %s" % (who, short(err.details())))
                continue
            if err is not None:
                w.bad("dyn.false_failure", "%s failed although nothing was wrong: %s" % (who, short(err.details())))
                continue
            if q["m"] == "delete":
                continue
            act = decode(name, reply)
            bag = "inputs" if q["m"] == "check" else "outs"
            if bag in act and not (q["m"] == "read" and resp.get("id") == ""):
                if act[bag].pop(KEY, None) != text_of(w, q["prov"]):
                    w.bad("dyn.text", "%s: the answer does not carry the resource's provider on" % who)
            act.get(bag, {}).pop(KEY, None) if bag in act else None
            if bag in resp:
                resp[bag] = {k: (wire.UNKNOWN if v == "<unknown>" else v) for k, v in resp[bag].items()}
            if wire.canon(unmark(resp)) != wire.canon(act):
                w.bad("dyn.answer", "%s: the answer is %s, expected %s" % (who, short(wire.canon(act)), short(wire.canon(unmark(resp)))))
    for who, ms in dyn_code.DEFAULTS.items():
        spec = [x for x in specs if x["id"] == who][0]
        for m, d in ms.items():
            if d != spec["do"][m]["kept"]:
                w.bad("dyn.meddled", "a dict the code of %s keeps and answers %s with was changed (%s)" % (who, m, sorted(set(d) ^ set(spec["do"][m]["kept"]))))
    for k, cs in calls.items():
        w.bad("dyn.call", "provider code ran for a request nobody sent (%s of %s)" % (cs[0]["method"], cs[0]["who"]))


def unmark(v):
    if v == "<unknown>":
        return wire.UNKNOWN
    if isinstance(v, dict):
        return {k: unmark(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unmark(x) for x in v]
    return v


def short(s):
    s = str(s)
    return s if len(s) < 400 else s[:400] + "..."


# ---------------------------------------------------------------- entry points
def execute(sim, wl):
    sim.knobs["starve"] = 60    # the provider process sleeps a day at a time
    tune_net(netmod.NET, sim, wl)
    w = World(sim, wl)
    sim.world = w
    dyn_code.W = w
    dyn_code.DEFAULTS.clear()
    dyn_code.HOLD.clear()
    programs(sim, w)
    target = serve(sim, w) if wl["lives"] else None
    if target is not None:
        lives(sim, w, target)
        judge(w)
    w.done = True
    return {"violations": once(w.v), "stats": {"resources": sum(len(p) for p in wl["progs"]), "requests": len(w.answers), "provider_calls": len(w.calls),
                                              "failed_requests": sum(1 for a in w.answers.values() if a[3] is not None)}}


def on_stuck(sim, wl, why):
    w = sim.world
    return [["stuck", why]] + (once(w.v) if w is not None else [])


def once(v):
    return [list(x) for x in dict.fromkeys(v)]


def generate(seed, prof):
    from . import dyn_gen
    return dyn_gen.generate(seed, prof)


def legal(wl):
    from . import dyn_gen
    return dyn_gen.legal(wl)


def editable(wl, path):
    from . import dyn_gen
    return dyn_gen.editable(wl, path)

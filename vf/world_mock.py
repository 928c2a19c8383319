"""World: a user's unit tests. Programs run under pulumi.runtime.test with mocks instead of an engine; the mocks answer from
the same plans the scripted engine uses elsewhere, some slowly, some by raising."""
import asyncio
import json
import logging
import random
import threading

import pulumi
import pulumi.runtime
from pulumi.runtime import mocks as M
from pulumi.output import Unknown
from pulumi.runtime import rpc
from pulumi.runtime.proto import provider_pb2

from . import engine as engmod
from . import interp
from . import wire
from .model import MRes, Model
from .oracle import Oracle

OFF = {"hyd": 0, "penv": 0, "org": 0, "cenv": 0, "ansid": 0, "remote": 150, "call": 0, "get": 80, "refs": 0, "nofeat": 0, "death": 0, "feat_err": 0, "badout": 0, "pdeps": 0, "badref": 0, "inline": 0, "strans": 0, "sref": 0,
       "export": 0, "compout": 300}
FEATS = {"secrets": True, "resourceReferences": True, "outputValues": False}


class MModel(Model):
    """The same program; URNs are made by the mocks' rule."""
    has_stack = False

    def echoed(self, w):
        """Mocks are shown a secret null as a null."""
        return nonull(super().echoed(w))

    def arg_text(self, w):
        return wire.canon(shown(w))

    def urn_for(self, r):
        p = r.parent or self.stack_res
        return "urn:pulumi:%s::%s::%s$%s::%s" % (self.stack, self.project, p.urn.split("::")[2].split("$")[-1], r.type, r.name)


class MOracle(Oracle):
    def fatal(self):
        """A callback whose output the test neither returns nor passes on is the test's own business."""
        return [e for e in self.m.errors if not e.startswith(("callback raises", "failing coroutine", "log on", "invoke")) and " has no output " not in e]

    def outputs(self):
        m = self.m
        seen = {}
        for urn, obj in self.eng.outputs:
            seen[urn] = seen.get(urn, 0) + 1
        for n, w in m.comp_outputs.items():
            k = seen.pop(m.res[n].urn, 0)
            if k > 1:
                self.bad("compout.dup", "outputs of %s sent %d times" % (n, k))
            if not k and self.strict and not m.errors:
                self.bad("compout.missing", "the test passed but outputs of %s were never sent" % n)
        for urn in seen:
            if urn.split("::")[2] != "pulumi:pulumi:Stack":
                self.bad("compout.unexpected", "outputs sent for %s" % urn)

    def logs(self):
        exp = {x[1]: x for x in self.m.logs}
        seen = {}
        for l in self.eng.logs:
            if l["msg"] in exp:
                seen[l["msg"]] = seen.get(l["msg"], 0) + 1
                if l["sev"] != {"debug": 10, "info": 20, "warn": 30, "error": 40}[exp[l["msg"]][2]]:
                    self.bad("logs.sev", "message %r has level %s, expected %s" % (l["msg"], l["sev"], exp[l["msg"]][2]))
        for msg, n in seen.items():
            if n > 1:
                self.bad("logs.dup", "message %r was delivered %d times" % (msg, n))
        if self.strict and not self.m.errors:
            for msg in exp:
                if msg not in seen:
                    self.bad("logs.missing", "message %r was never delivered" % msg)


class Local:
    """What the scripted engine needs of a network when it is asked in place."""

    def listen(self, *a):
        pass

    def resp_latency(self, m):
        return 0.0

    def respond(self, call, data, delay=0.0):
        call.answer, call.delay = data, delay

    def respond_error(self, call, code, details):
        call.answer, call.failure = None, details


class Asked:
    def __init__(self, method, data):
        self.method, self.data = method, data
        self.answer = self.failure = None
        self.delay = 0.0


class Eng(engmod.Engine):
    def __init__(self, sim, wl, tag):
        super().__init__(sim, Local(), wl, tag=tag)

    def make_urn(self, parent, typ, name):
        pre = (parent.split("::")[2].split("$")[-1] + "$") if parent else ""
        return "urn:pulumi:%s::%s::%s::%s" % (self.stack, self.project, pre + typ, name)

    def completed_at(self, delay, urn):
        pass        # (noted when the mocks have answered)


class Monitor(M.MockMonitor):
    """The real one, with a note of what it was asked."""

    def __init__(self, w, mocks):
        super().__init__(mocks)
        self.w = w

    def _ask(self, what, request, real):
        w = self.w
        e = w.eng
        call = Asked(what, request.SerializeToString())
        getattr(e, "do_" + what)(call)
        w.pending.at = (call, e, request)
        w.pending.calls = 0
        getres = what == "Invoke" and request.tok == "pulumi:pulumi:getResource"
        if getres and call.delay:
            w.sim.sleep(call.delay)
        resp = real(request)
        if getres:
            if w.pending.calls:
                w.bad("mock.calls", "the mocks were asked about a resource the monitor knows")
            e.completed[request.args["urn"]] = w.sim.now
        if what == "RegisterResourceOutputs" and call.failure:
            raise Exception(call.failure)
        if what in ("RegisterResource", "ReadResource") and request.type != "pulumi:pulumi:Stack" or what == "Invoke" and not getres:
            if w.pending.calls != 1:
                w.bad("mock.calls", "the mocks were asked %d times for one request (%s)" % (w.pending.calls, what))
        if call.answer is None and what not in ("RegisterResourceOutputs",):
            w.bad("mock.swallowed", "the mocks raised, and the monitor answered nevertheless (%s)" % what)
        if request.DESCRIPTOR.name == "RegisterResourceRequest" and request.type == "pulumi:pulumi:Stack":
            w.stacks.add(resp.urn)
            for x in w.engs:
                x.completed.setdefault(resp.urn, w.sim.now)
        if what in ("RegisterResource", "ReadResource"):
            e.completed[resp.urn] = w.sim.now
            e.made.append(resp.urn)
            if request.type != "pulumi:pulumi:Stack":
                w.known[resp.urn] = (self, request.id if what == "ReadResource" else resp.id, wire.from_struct(resp.properties if what == "ReadResource" else resp.object))
        return resp

    def RegisterResource(self, request):
        return self._ask("RegisterResource", request, super().RegisterResource)

    def ReadResource(self, request):
        return self._ask("ReadResource", request, super().ReadResource)

    def Invoke(self, request):
        return self._ask("Invoke", request, super().Invoke)

    def RegisterResourceOutputs(self, request):
        return self._ask("RegisterResourceOutputs", request, super().RegisterResourceOutputs)


class UserMocks(M.Mocks):
    def __init__(self, w):
        self.w = w

    def _wait(self):
        call, e, request = self.w.pending.at
        self.w.pending.calls += 1
        told = (pulumi.get_project(), pulumi.get_stack(), pulumi.runtime.is_dry_run())
        if told != (e.project, e.stack, e.preview):
            self.w.bad("mock.settings", "the mocks saw %s, expected %s" % (told, (e.project, e.stack, e.preview)))
        if call.delay:
            self.w.sim.sleep(call.delay)
        if call.failure:
            raise Exception(call.failure)
        return call, e, request

    def new_resource(self, args):
        call, e, req = self._wait()
        w, read = self.w, hasattr(req, "properties")
        plan = e.plans.get(req.name) or {}
        w.same("type", req.name, args.typ, req.type)
        w.same("name", req.name, args.name, req.name)
        w.same("provider", req.name, args.provider or "", req.provider)
        w.same("resource_id", req.name, args.resource_id or "", req.id if read else req.importId)
        if not read:
            w.same("custom", req.name, bool(args.custom), req.custom)
        w.same("inputs", req.name, plain(args.inputs), shown(wire.from_struct(req.properties if read else req.object)))
        state = state_of(plan, args.inputs, e.preview)
        id_ = ""
        if not read and req.custom:
            id_ = plan.get("id", "id-" + req.name)
            if e.preview and not plan.get("preview_id"):
                id_ = ""
        elif read:
            id_ = req.id
        return (id_ or None, state) if len(req.name) % 2 else [id_, state]

    def call(self, args):
        call, e, req = self._wait()
        w = self.w
        w.same("token", req.tok, args.token, req.tok)
        w.same("provider", req.tok, args.provider or "", req.provider)
        w.same("args", req.tok, plain(args.args), shown(wire.from_struct(req.args)))
        plan = e.plans.get("invoke:" + req.tok) or {}
        if plan.get("failures"):
            return {}, [("p", "bad " + req.tok)]
        ret = {"r": "I(%s|%s)" % (req.tok, wire.canon(shown(wire.from_struct(req.args))))}
        ret.update(plan.get("ret") or {})
        return ret if len(req.tok) % 2 else (ret, [])


SHAPES = ["output"] * 3 + ["list", "last", "dict", "deep", "coroutine", "task"]


def state_of(plan, inputs, preview, secret=pulumi.Output.secret):
    state = {}
    if plan.get("echo_all"):
        state.update(inputs)
    for k, spec in (plan.get("out") or {}).items():
        if spec[0] == "v":
            state[k] = spec[1]
        elif spec[0] == "echo":
            if spec[1] in inputs:
                state[k] = inputs[spec[1]]
        elif spec[0] == "sec":
            state[k] = secret(spec[1])
        elif spec[0] == "unk":
            state[k] = rpc.UNKNOWN if preview else spec[1]
    return state


def nonull(w):
    if isinstance(w, dict):
        if wire.is_secret(w):
            return dict(w, value=nonull(w["value"]))
        d = {k: nonull(x) for k, x in w.items() if x is not None and not (wire.is_secret(x) and x["value"] is None)}
        return wire.secret(d) if any(wire.is_secret(x) and x["value"] is None for x in w.values()) else d
    if isinstance(w, list):
        return [nonull(x) for x in w]
    return w


def plain(v):
    """What mocks were given, as plain data (secrets without their envelope)."""
    if isinstance(v, pulumi.Resource):
        return "<resource>"
    if isinstance(v, Unknown):
        return wire.UNKNOWN
    if isinstance(v, (pulumi.Asset, pulumi.Archive)):
        return "<asset>"
    if isinstance(v, dict):
        if wire.is_secret(v):
            return plain(v["value"])
        d = {k: plain(x) for k, x in v.items()}
        return {k: x for k, x in d.items() if x is not None}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return wire.norm(v)


def shown(w):
    if isinstance(w, dict):
        s = w.get(wire.SIG)
        if s == wire.SECRET:
            return shown(w["value"])
        if s in (wire.ASSET, wire.ARCHIVE):
            return "<asset>"
        if s == wire.RESREF:
            return w["id"] or wire.UNKNOWN if "id" in w else w["urn"]
        d = {k: shown(x) for k, x in w.items()}
        return {k: x for k, x in d.items() if x is not None}
    if isinstance(w, list):
        return [shown(x) for x in w]
    return wire.norm(w)


class Handler(logging.Handler):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def emit(self, rec):
        if self.w.eng is not None:
            self.w.eng.logs.append({"msg": rec.getMessage(), "sev": rec.levelno})


class Out:
    ok, detail, exc = None, "", None


class World:
    def __init__(self, sim, wl):
        self.sim, self.wl = sim, wl
        self.pending = threading.local()
        self.v = []
        self.eng = None
        self.stacks = set()
        self.known = {}
        self.monitor = None
        self.engs, self.rts, self.outs = [], [], []

    def bad(self, k, m):
        self.v.append((k, m))

    def same(self, f, who, got, exp):
        if got != exp:
            self.bad("mock." + f, "%s: the mocks were given %s %s, expected %s" % (who, f, str(got)[:200], str(exp)[:200]))


def execute(sim, wl):
    w = World(sim, wl)
    sim.world = w
    logger = logging.getLogger("vf.mock.%d" % random.Random(0).randrange(10))
    logger.propagate = False
    logger.setLevel(logging.DEBUG)
    logger.handlers[:] = [Handler(w)]
    mocks = UserMocks(w)
    for i, t in enumerate(wl["tests"]):
        e = Eng(sim, t, "t%d" % i)
        e.made = []
        e.completed.update((u, 0.0) for u in w.stacks)
        w.engs.append(e)
        w.rts.append(interp.RT(t))
        w.outs.append(None)
        if i == 0 or wl.get("each"):
            w.eng = w.eng or e
            w.monitor = Monitor(w, mocks)
            pulumi.runtime.set_mocks(mocks, project=e.project, stack=e.stack, preview=bool(t["preview"]), logger=logger, monitor=w.monitor)
        for key, plan in t["_plans"].items():
            if key.startswith("get:") and not plan.get("err") and not plan.get("failures"):
                w.monitor.resources[key[4:]] = M.MockMonitor.ResourceRegistration(key[4:], plan.get("id", ""), state_of(plan, {}, bool(t["preview"]), rpc.wrap_rpc_secret))
        pulumi.runtime.set_all_config(t.get("config") or {}, t.get("config_secret_keys") or [])
        w.outs[i] = run(sim, w, i, t)
        sim.log("test", i, w.outs[i].ok)
    remembered(w)
    return {"violations": judge(w), "stats": {"tests": len(w.outs), "passed": sum(1 for o in w.outs if o.ok), "failed": sum(1 for o in w.outs if not o.ok), "errors": any(not o.ok for o in w.outs), "requests": sum(len(e.requests) for e in w.engs),
                                             "callbacks": sum(len(r.fired) for r in w.rts)}}


def remembered(w):
    """A monitor asked about what was registered with it gives the answer it gave then."""
    for urn, (monitor, id_, state) in list(w.known.items()) if w.outs[-1].ok else []:
        resp = M.MockMonitor.Invoke(monitor, provider_pb2.InvokeRequest(tok="pulumi:pulumi:getResource", args=wire.to_struct({"urn": urn})))
        got = wire.from_struct(getattr(resp, "return"))
        exp = {"urn": urn, "id": id_, "state": state}
        if got.get("id") is None and not id_:
            got["id"] = id_
        if resp.failures or got != exp:
            w.bad("mock.remembered", "asked about %s, the monitor gives %s, and answered %s when it was registered" % (urn, wire.canon(got)[:200], wire.canon(exp)[:200]))


def run(sim, w, i, t):
    out = Out()
    rt = w.rts[i]

    @pulumi.runtime.test
    def test():
        w.eng = w.engs[i]
        interp.run_ops(rt, t["ops"], {}, None)
        if t.get("returns"):
            async def late(us):
                await asyncio.sleep(0.01)
                return check(us)

            def check(us):
                if t.get("wrong"):
                    w.sim.fault("assertion_in_returned_output")
                    raise AssertionError("wrong")
                rt.obs.append(us)

            o = pulumi.Output.all(*[rt.res[n].urn for n in t["returns"] if n in rt.res]).apply(late if t.get("late") else check)
            fine = pulumi.Output.from_input("fine")

            async def waits():
                await asyncio.sleep(0)
                return o

            return {"output": lambda: o, "list": lambda: [o, fine], "last": lambda: [1, fine, o], "dict": lambda: {"a": fine, "b": o}, "deep": lambda: {"a": [{"b": fine, "c": [o]}]},
                    "coroutine": waits, "task": lambda: asyncio.ensure_future(waits())}[t.get("as", "output")]()

    try:
        test()
        out.ok = True
    except BaseException as e:  # noqa
        out.ok, out.exc, out.detail = False, e, "%s: %s" % (type(e).__name__, e)
    out.at_end = progress(w.engs[i], rt)
    return out


def progress(e, rt):
    return {"requests": len(e.requests), "answers": len(e.made), "callbacks": len(rt.fired), "messages": len(e.logs), "outputs": len(e.outputs)}


def judge(w, stuck=None):
    res = list(w.v)
    for i, t in enumerate(w.wl["tests"]):
        if i >= len(w.outs):
            break
        e, rt, out = w.engs[i], w.rts[i], w.outs[i]
        late = progress(e, rt)
        e.requests = [d for d in e.requests if d.get("type") != "pulumi:pulumi:Stack"]
        m = MModel(t)
        if w.stacks:
            m.stack_res.urn = min(w.stacks)
        m.run()
        if t.get("wrong"):
            m.errors.append("the returned output fails")
        o = MOracle(t, e, rt, out, m)
        vs = o.run(stuck=stuck if out is None else None)
        if out is not None and out.ok and not m.errors and t.get("returns") and not any(rt.obs):
            vs.append(("end.false_success", "the test passed before the output it returns was computed"))
        if out is not None and out.ok and not m.errors and late != out.at_end:
            vs.append(("end.early", "the test had passed before all that it started was done: %s, later %s" % (out.at_end, late)))
        res += [(k, "test %d: %s" % (i, msg)) for k, msg in vs]
    return [list(x) for x in dict.fromkeys((k, m) for k, m in res)]


def on_stuck(sim, wl, why):
    w = sim.world
    return judge(w, why) if w is not None else [["stuck", why]]


def generate(seed, prof):
    from . import gen
    prof = dict(prof or {})
    rng = random.Random("mock:%s" % seed)
    wl = {"world": "mock", "each": rng.random() < prof.pop("each", 400) / 1000.0, "tests": []}
    n = prof.pop("tests", (1, 4))
    wrong = prof.pop("wrong", 0)
    p = dict(OFF, n=(1, 6))
    p.update(prof)
    preview = None
    for i in range(rng.randint(*n)):
        t = gen.generate("%s/t%d" % (seed, i), p)
        t["features"] = dict(FEATS)
        if preview is None or wl["each"]:
            preview = t["preview"]
        if t["preview"] != preview:
            k = 0
            while t["preview"] != preview:
                k += 1
                t = gen.generate("%s/t%d.%d" % (seed, i, k), p)
            t["features"] = dict(FEATS)
        for x in ("host", "spread"):
            t.pop(x, None)
        for key in [k for k in t["_plans"] if k.startswith("get:")] if i else []:
            t = json.loads(json.dumps(t).replace(key[4:], key[4:].replace(":stk::", ":old%d::" % i)))
        t["_plans"].pop("outputs:proj-stk", None)  # the mocks have no say in the outputs of the stack
        if wl["each"] and i and rng.random() < 0.6:
            t["stack"] = "stk%d" % i
            if not t.get("config"):
                t["project"] = "proj%d" % i
        top = [op["n"] for op in t["ops"] if op.get("op") == "res"]
        if top and rng.random() < 0.5 and not preview:
            t["returns"] = rng.sample(top, rng.randint(1, min(2, len(top))))
            t["late"] = rng.random() < 0.5
            t["wrong"] = rng.random() * 1000 < wrong
            t["as"] = random.Random("as:%s:%d" % (seed, i)).choice(SHAPES)
        wl["tests"].append(t)
    return wl


def legal(wl):
    from .world_prog import legal as ok
    return bool(wl["tests"]) and all(ok(t) and all(n in {op.get("n") for op in t["ops"]} for n in t.get("returns") or []) for t in wl["tests"]) \
        and (wl["each"] or len({t["preview"] for t in wl["tests"]}) == 1)

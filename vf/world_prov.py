"""World: a component provider process. The real `pulumi.provider.main` serves Construct and Call requests that arrive
concurrently, each with a monitor of its own, over the simulated network."""
import copy
import io
import random
import sys

import grpc
import pulumi
from pulumi.provider import CallResult, CheckFailure, ConstructResult, Provider
from google.protobuf import empty_pb2
from pulumi.runtime.proto import plugin_pb2, provider_pb2

from . import engine as engmod
from . import interp
from . import kernel
from . import net as netmod
from . import refs
from . import wire
from .gen import Gen
from .model import MV, UNK, CbError, Flow, Model, MRes, ProgError, nowait
from .oracle import Oracle, diff
from .world_prog import tune_net

RP = "/pulumirpc.ResourceProvider/"
W = None


# ---------------------------------------------------------------- the provider under test
class Prov(Provider):
    def construct(self, name, resource_type, inputs, options=None):
        rt = W.rts[name]
        return W.construct(rt, name, resource_type, inputs, options)

    def call(self, token, args):
        rt = W.rts[token]
        return W.call(rt, token, args)


def body(rt, q, inputs, options):
    rt.began = kernel.SIM.now
    env = {"in:" + k: inputs.get(k) for k in q["inputs"]}
    rt.keys = sorted(inputs)
    if options is not None:
        env["$opts"] = options
        ps = options.providers or {}
        rt.provs = sorted((p.package if hasattr(p, "package") else "", getattr(p, "_vf_name", "")) for p in (ps.values() if isinstance(ps, dict) else ps))
    interp.run_ops(rt, q["ops"], env, None)
    if q.get("raise"):
        raise interp.UserError(q["raise"])
    return env, {k: interp.ev(rt, e, env) for k, e in q["state"].items()}


class World:
    def __init__(self, sim, wl):
        self.sim, self.wl = sim, wl
        self.rts, self.engs, self.answers = {}, {}, {}
        self.left = len(wl["reqs"]) + len(wl.get("about", ()))
        self.about = {}
        self.calls = {}
        self.began = {}

    def construct(self, rt, name, typ, inputs, options):
        q = rt.wl
        rt.got = (name, typ)
        self.sim.log("construct", name)
        env, st = body(rt, q, inputs, options)
        urn = rt.res[q["name"]].urn
        if q.get("noise"):
            st["id"] = "not-state"
            st["urn"] = "not-state"
        return ConstructResult(urn=urn, state=st)

    def call(self, rt, tok, args):
        q = rt.wl
        rt.got = (tok,)
        self.sim.log("call", tok)
        env, st = body(rt, q, args, None)
        return CallResult(outputs=st, failures=[CheckFailure(*f) for f in q["failures"]] if q.get("failures") else None)


class Out(io.StringIO):
    def __init__(self):
        super().__init__()
        self.buffer = io.BytesIO()


def message(q, addr):
    kw = dict(project=q["project"], stack=q["stack"], config=q["config"], configSecretKeys=q["config_secret_keys"], dryRun=q["preview"],
              parallel=q.get("parallel", 0), monitorEndpoint=addr)
    if q["kind"] == "construct":
        m = provider_pb2.ConstructRequest(type=q["type"], name=q["name"], parent=q["parent"], aliases=q["aliases"], dependencies=q["depends"],
                                          protect=q["protect"], providers=q["providers"], inputs=wire.to_struct(q["inputs"]), **kw)
        d = m.inputDependencies
    else:
        m = provider_pb2.CallRequest(tok=q["name"], args=wire.to_struct(q["inputs"]), **kw)
        d = m.argDependencies
    for k, us in q["deps"].items():
        d[k].urns.extend(us)
    return m.SerializeToString()


def client(sim, w, target):
    """Sends every request at its time; when all are answered, waits a while and stops the server."""
    net = netmod.NET

    def stop():
        srv = netmod.SimAioServer.instances[-1]
        srv.loop.call_soon_threadsafe(lambda: srv.term.done() or srv.term.set_result(True))

    def answered(name, c):
        w.answers[name] = (sim.now, c.reply, c.error)
        sim.log("answered", name, "error" if c.error is not None else "ok")
        over()

    def over():
        w.left -= 1
        if w.left == 0:
            sim.at(400.0, stop)

    def send(q):
        w.engs[q["name"]].began = sim.now
        method = RP + ("Construct" if q["kind"] == "construct" else "Call")
        sim.log("send", q["name"])
        c = net.start(target, method, message(q, w.engs[q["name"]].addr), lambda c: answered(q["name"], c))
        w.calls[q["name"]] = c
        if q.get("cancel") is not None:
            sim.at(q["cancel"], cancel, q, c)

    def cancel(q, c):
        if c.done:
            return
        sim.fault("request_cancelled")
        sim.log("cancel", q["name"])
        netmod.SimAioServer.instances[-1].cancel_call(c)
        net._fail(c, grpc.StatusCode.CANCELLED, "cancelled by the caller")

    def about(i, x):
        """Asks for the version, the schema, or what the provider accepts."""
        kind, arg = x["ask"]
        m, a = ASK[kind]
        data = {"info": empty_pb2.Empty(), "schema": provider_pb2.GetSchemaRequest(version=arg or 0),
                "configure": provider_pb2.ConfigureRequest(acceptSecrets=True, acceptResources=True)}[kind].SerializeToString()

        def got(c):
            w.about[i] = None if c.error is not None else a.FromString(c.reply)
            sim.log("answered", kind, "error" if c.error is not None else "ok")
            over()
        sim.log("send", kind)
        net.start(target, RP + m, data, got)

    for q in w.wl["reqs"]:
        sim.at(q["at"], send, q)
    for i, x in enumerate(w.wl.get("about", ())):
        sim.at(x["at"], about, i, x)


ASK = {"info": ("GetPluginInfo", plugin_pb2.PluginInfo), "schema": ("GetSchema", provider_pb2.GetSchemaResponse),
       "configure": ("Configure", provider_pb2.ConfigureResponse)}


def execute(sim, wl):
    global W
    net = netmod.NET
    tune_net(net, sim, wl)
    W = w = World(sim, wl)
    sim.world = w
    w.log = engmod.Engine(sim, net, {"_plans": {}}, addr="unused:1", eng_addr="eng:1", tag="L")
    for i, q in enumerate(wl["reqs"]):
        e = engmod.Engine(sim, net, q, addr="mon:%d" % (i + 1), eng_addr="noeng:%d" % (i + 1), tag=q["name"])
        w.engs[q["name"]] = e
        w.rts[q["name"]] = interp.RT(q, q["name"])
    argv, out = sys.argv, sys.stdout
    sys.argv = ["provider", "eng:1"]
    sys.stdout = o = Out()

    def poll():
        s = o.buffer.getvalue()
        if s.endswith(b"\n"):
            client(sim, w, "127.0.0.1:%d" % int(s))
        else:
            sim.at(0.01, poll)

    sim.at(0.01, poll)
    from pulumi.provider import main
    w.ended = None
    try:
        main(Prov(*wl.get("prov", ["1.0.0"])), ["eng:1"])
        w.ended = "returned"
    except BaseException as e:  # noqa
        w.ended = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv, sys.stdout = argv, out
    if w.left and w.ended is not None:
        return {"violations": judge(w, "the provider process ended (%s) with requests unanswered" % w.ended), "stats": {}}
    return {"violations": judge(w), "stats": stats(w)}


def on_stuck(sim, wl, why):
    return judge(sim.world, why)


def stats(w):
    return {"requests": len(w.wl["reqs"]), "answered_ok": sum(1 for a in w.answers.values() if a[2] is None),
            "registrations": sum(len(e.requests) for e in w.engs.values()), "previews": sum(1 for q in w.wl["reqs"] if q["preview"])}


# ---------------------------------------------------------------- the model of one request
def in_value(w, revive):
    """(value, secret) of an input as the provider must see it."""
    if isinstance(w, dict):
        s = w.get(wire.SIG)
        if s == wire.OUTVAL:
            deps = [("urn", u) for u in w.get("dependencies") or []]
            return MV(in_value(w["value"], revive)[0] if "value" in w else UNK, bool(w.get("secret")), deps), False
        if s == wire.SECRET:
            return in_value(w["value"], revive)[0], True
        if s == wire.RESREF:
            if refs.pick(refs.typ_of(w["urn"]), w.get("packageVersion") or ""):
                return revive(w["urn"], w.get("packageVersion") or ""), False
            if "id" in w:
                return (UNK if w["id"] in ("", wire.UNKNOWN) else w["id"]), False
            return w["urn"], False
        if s in (wire.ASSET, wire.ARCHIVE):
            from .model import MAsset
            k = [x for x in w if x != wire.SIG][0]
            return MAsset(k, in_value(w[k], revive)[0] if s == wire.ARCHIVE else w[k], s == wire.ARCHIVE), False
        out, sec = {}, False
        for k, x in w.items():
            if k.startswith("__") and k != "__provider":
                continue
            v, s2 = in_value(x, revive)
            if v is None and not s2:
                continue
            sec = sec or s2
            out[k] = v
        return out, sec
    if isinstance(w, list):
        vs = [in_value(x, revive) for x in w]
        return [v for v, _ in vs], any(s for _, s in vs)
    if w == wire.UNKNOWN:
        return UNK, False
    return w, False


def has_mv(v):
    if isinstance(v, MV):
        return True
    if isinstance(v, dict):
        return any(has_mv(x) for x in v.values())
    if isinstance(v, list):
        return any(has_mv(x) for x in v)
    return False


def dep_res(urn, provider=False):
    r = MRes(urn.rpartition("::")[2], "provider" if provider else "custom", urn.split("::")[2].split("$")[-1])
    r.urn = urn
    r.urnv = MV(urn, deps=[("urn", urn)])
    r.hard, r.soft = set(), set()
    return r


class PModel(Model):
    has_stack = False

    def __init__(self, q):
        super().__init__(q)
        self.q = q
        self.stack_res.urn = ""
        self.stack_res.urnv = MV("", deps=[])

    def inputs(self):
        q, env, keys = self.q, {}, []
        for k, w in q["inputs"].items():
            v, sec = in_value(w, self.revive)
            skip = q["kind"] == "construct" and k.startswith("__") and k != "__provider"
            if skip or (v is None and not sec):
                env["in:" + k] = None
                continue
            keys.append(k)
            deps = q["deps"].get(k) or []
            if not (not sec and (not deps or has_mv(v) or (isinstance(v, MRes) and deps == [v.urn]))):
                v = MV(v, sec, [("urn", u) for u in deps])
            env["in:" + k] = v
        self.keys = sorted(keys)
        return env

    def urn_for(self, r):
        if r.parent is not None and r.parent.type == "pulumi:pulumi:Stack":
            return "urn:pulumi:%s::%s::%s::%s" % (self.stack, self.project, r.type, r.name)
        return super().urn_for(r)

    def expand(self, deps, before=None, seen=None):
        lo, hi = super().expand(deps, before, seen)
        f = lambda s: {("urn", x.urn) if isinstance(x, MRes) and x in self.given else x for x in s}  # noqa: E731
        return f(lo), f(hi)

    def run(self):
        q = self.q
        env = self.inputs()
        self.given, self.provs = set(), []
        if q["kind"] == "construct":
            o = {"aliases": list(q["aliases"]), "depends_on": [[dep_res(u) for u in q["depends"]]], "protect": q["protect"], "providers": []}
            for pkg, ref in q["providers"].items():
                urn, _, i = ref.rpartition("::")
                if refs.pick(refs.typ_of(urn), ""):
                    p = self.revive(urn, "")
                else:
                    p = dep_res(urn, True)
                    p.package = pkg
                    p.id = MV(UNK if i == wire.UNKNOWN else i)
                    self.given.add(p)
                o["providers"].append(p)
                self.provs.append((pkg, p.name if refs.pick(refs.typ_of(urn), "") else ""))
            self.given |= set(o["depends_on"][0])
            if q["parent"]:
                o["parent"] = dep_res(q["parent"])
                self.given.add(o["parent"])
            env["$opts"] = o
        flow = Flow()
        self.state = {}
        self.state_deps = {}
        self.stack_outputs = None
        try:
            self.ops(q["ops"], env, flow, None)
            if q.get("raise"):
                raise ProgError(q["raise"])
            raw = {k: self.ev(e, env, flow) for k, e in q["state"].items()}
        except ProgError as e:
            self.main_raised = True
            self.errors.append("the provider's code raises: %s" % e)
            return self
        try:
            for k, v in raw.items():
                self.cur_before = None
                w = self.wire(v)
                if w is not None:
                    self.state[k] = w
                self.state_deps[k] = {x[1] if isinstance(x, tuple) else x.urn for x in nowait(self.deps_of(v))}
        except CbError as e:
            self.errors.append("a result fails: %s" % e)
        if q["kind"] == "construct" and self.res[q["name"]].err:
            self.errors.append("the component fails")
        return self


class POracle(Oracle):
    def outputs(self):
        m = self.m
        by = {}
        for urn, obj in self.eng.outputs:
            by.setdefault(urn, []).append(obj)
        exp = {m.res[n].urn: w for n, w in m.comp_outputs.items()}
        for urn, objs in by.items():
            if urn not in exp:
                self.bad("compout.unexpected", "outputs sent for %s, which never registers any" % urn)
                continue
            if len(objs) > 1:
                self.bad("compout.dup", "outputs of %s sent %d times" % (urn, len(objs)))
            if exp[urn] is None:
                self.bad("compout.after_failure", "outputs of %s sent although they cannot be computed" % urn)
                continue
            for kk, msg in diff(exp[urn], objs[0], "outputs of %s" % urn.rpartition("::")[2]):
                self.bad("compout." + kk, msg)
        if self.strict and not m.errors:
            for urn in exp:
                if urn not in by:
                    self.bad("compout.missing", "answered, but outputs of %s were never sent" % urn)


class Outc:
    def __init__(self, ok, detail):
        self.ok, self.detail = ok, detail


def judge(w, stuck=None):
    v = []
    for q in w.wl["reqs"]:
        name = q["name"]
        m = PModel(q).run()
        eng, rt = w.engs[name], w.rts[name]
        eng.logs = [x for x in w.log.logs if x["msg"] in {y[1] for y in m.logs}]
        a = w.answers.get(name)
        cancelled = a is not None and a[2] is not None and a[2].code() == grpc.StatusCode.CANCELLED
        if a is None:
            out = None
        else:
            out = Outc(a[2] is None, "" if a[2] is None else str(a[2].details()))
        if cancelled:
            m.errors.append("cancelled")
        o = POracle(q, eng, rt, out, m)
        if a is None:
            vs = o.run(stuck="request %s was never answered: %s" % (name, stuck))
        else:
            vs = o.run()
            if out.ok:
                o.v = []
                response(q, m, o, a[1])
                late(q, m, eng, a[0], o)
                vs += o.v
        v += [(k, "[%s] %s" % (name, msg)) for k, msg in vs]
        if rt.began is not None if hasattr(rt, "began") else False:
            if rt.keys != m.keys:
                v.append(("in.keys", "[%s] the provider's code saw inputs %s, expected %s" % (name, rt.keys, m.keys)))
            if getattr(rt, "provs", None) is not None and rt.provs != sorted(m.provs):
                v.append(("in.keys", "[%s] the provider's code saw providers %s, expected %s" % (name, rt.provs, sorted(m.provs))))
    about(w, v)
    seen, res = set(), []
    for x in v:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def about(w, v):
    """Its version, its schema and what it accepts."""
    prov = w.wl.get("prov", ["1.0.0"])
    for i, x in enumerate(w.wl.get("about", ())):
        kind, arg = x["ask"]
        if i not in w.about:
            v.append(("stuck", "asked for its %s, the provider never answered" % kind))
            continue
        a = w.about[i]
        if kind == "schema" and arg:
            if a is not None:
                v.append(("resp.value", "asked for version %s of its schema, the provider answered %r" % (arg, a.schema)))
        elif a is None:
            v.append(("end.false_failure", "asked for its %s, the provider failed" % kind))
        elif kind == "info" and a.version != prov[0]:
            v.append(("resp.value", "the provider states version %r, expected %r" % (a.version, prov[0])))
        elif kind == "schema" and a.schema != (prov[1:] and prov[1] or "{}"):
            v.append(("resp.value", "the provider states schema %r, expected %r" % (a.schema, prov[1:])))
        elif kind == "configure" and not (a.acceptSecrets and a.acceptResources and a.acceptOutputs):
            v.append(("resp.value", "the provider does not accept secrets, resources or output values: %s" % a))


def late(q, m, eng, t, o):
    """Everything the request's code started must be over when the answer leaves."""
    for d in eng.requests:
        if d["t"] > t:
            o.bad("resp.early", "%s %s reached the engine %.3f s after the request was answered" % (d["rpc"], d.get("name") or d.get("tok") or
                                                                                               d.get("urn"), d["t"] - t))


def response(q, m, o, data):
    if q["kind"] == "construct":
        r = provider_pb2.ConstructResponse.FromString(data)
        urn = m.res[q["name"]].urn
        if r.urn != urn:
            o.bad("resp.value", "answered URN %s, expected %s" % (r.urn, urn))
        obj, deps = wire.from_struct(r.state), {k: sorted(x.urns) for k, x in r.stateDependencies.items()}
    else:
        r = provider_pb2.CallResponse.FromString(data)
        obj, deps = wire.from_struct(getattr(r, "return")), {k: sorted(x.urns) for k, x in r.returnDependencies.items()}
        fs = [[f.property, f.reason] for f in r.failures]
        if fs != (q.get("failures") or []):
            o.bad("resp.value", "answered failures %s, expected %s" % (fs, q.get("failures")))
    if m.errors:
        return
    for k, msg in diff(m.state, obj, "answer"):
        o.bad("resp." + k, msg)
    for k in sorted(set(deps) | set(m.state_deps)):
        if k not in m.state:
            if deps.get(k):
                o.bad("resp.deps", "dependencies %s for %s, which was not answered" % (deps[k], k))
            continue
        e, a = m.state_deps.get(k, set()), set(deps.get(k, ()))
        for u in sorted(e - a):
            o.bad("resp.deps", "answer.%s does not list %s, from which its value comes" % (k, u))
        for u in sorted(a - e):
            o.bad("resp.deps", "answer.%s lists %s, from which nothing in it comes" % (k, u))


# ---------------------------------------------------------------- generation
PBASE = {"reqs": (1, 3), "call_req": 300, "overlap": 700, "cancel": 0, "preq": 0, "braise": 0, "oldeng": 200, "inline": 0, "n": (1, 5), "strans": 0,
         "invoke": 60, "comp": 200}


class PGen(Gen):
    def wirev(self, urns, d=0, old=False):
        """An input as the engine sends it, and the URNs it depends on."""
        r = self.r
        k = r.random()
        if d < 2 and self.ch("hyd"):
            w = self.ref_wire()
            k = r.random()
            if k < 0.4:
                return w, [w["urn"]]
            if k < 0.5:
                return w, []
            if k < 0.6:
                return w, [w["urn"], urns[0]]
            if k < 0.8:
                return [w, {"k0": "x"}], [w["urn"]]
            return (wire.secret(w) if old else {wire.SIG: wire.OUTVAL, "value": w, "dependencies": [w["urn"]], "secret": k < 0.9}), [w["urn"]]
        k = r.random()
        if d and not old and r.random() < 0.1:
            # plain secrets and output values side by side
            return wire.secret(self.plainv()), []
        if k < 0.3:
            return "in-%d" % r.randrange(100), []
        if k < 0.36:
            return r.choice((1, 2.5, True, False, "", [], {})), []
        if k < 0.44 and d < 3:
            xs = [self.wirev(urns, d + 1, old) for _ in range(r.randint(1, 3))]
            return [x for x, _ in xs], sum((y for _, y in xs), [])
        if k < 0.54 and d < 3:
            xs = {n: self.wirev(urns, d + 1, old) for n in r.sample(("k0", "a_b", "cD", "__x"), r.randint(1, 2))}
            return {n: x for n, (x, _) in xs.items()}, sum((y for _, y in xs.values()), [])
        if k < 0.59:
            u = r.choice(urns)
            w = {wire.SIG: wire.RESREF, "urn": u}
            if r.random() < 0.7:
                w["id"] = "" if self.preview and r.random() < 0.3 else "rid-1"
            return w, [u]
        if k < 0.64:
            return {wire.SIG: wire.ASSET, r.choice(("text", "path", "uri")): "zzz"}, []
        if k < 0.7 and self.preview:
            us = r.sample(urns, r.randint(0, 1))
            if old:
                return (wire.secret(wire.UNKNOWN) if self.ch("secret") and r.random() < 0.5 else wire.UNKNOWN), us
            w = {wire.SIG: wire.OUTVAL}
            if self.ch("secret"):
                w["secret"] = True
            if us:
                w["dependencies"] = us
            return w, us
        if self.ch("secret") and old:
            return wire.secret(self.plainv()), []
        if old:
            return "plain", r.sample(urns, r.randint(0, 1))
        w = {wire.SIG: wire.OUTVAL, "value": self.plainv()}
        us = r.sample(urns, r.randint(0, 2))
        if us:
            w["dependencies"] = sorted(us)
        if self.ch("secret"):
            w["secret"] = True
        elif r.random() < 0.1:
            w["secret"] = False
        return w, us

    def plainv(self):
        return self.r.choice(("val", 4, ["a", 1], {"x": {"y": "z"}}, "", True, {wire.SIG: wire.ASSET, "text": "t"}))


def request(rng, prof, i, project_of):
    g = PGen(rng, prof)
    g.tag = " of q%d" % i
    g.org = False
    g.preview = g.ch("preview")
    r = rng
    kind = "call" if g.ch("call_req") else "construct"
    project, stack = project_of
    pre = "urn:pulumi:%s::%s::" % (stack, project)
    urns = [pre + "z:z:Z::z%d" % k for k in range(3)] + [pre + "a:b:C$d:e:F::deep"]
    q = {"kind": kind, "name": "q%d" % i if kind == "construct" else "pa:m:Comp/meth%d" % i, "preview": g.preview, "project": project, "stack": stack,
         "config": {}, "config_secret_keys": [], "parallel": r.choice((0, 4)), "providers": {}}
    old = g.ch("oldeng")
    ins, deps = {}, {}
    names = ["a", "b", "my_prop", "someProp", "__internal", "name", "provider", "value"]
    r.shuffle(names)
    for k in names[: r.randint(0, 4)]:
        ins[k], d = g.wirev(urns, 0, old)
        if d or r.random() < 0.2:
            deps[k] = sorted(set(d))
        elif old and r.random() < 0.4:
            deps[k] = [r.choice(urns)]
    if kind == "call" and r.random() < 0.8:
        ins["__self__"] = g.ref_wire() if g.ch("hyd") else {wire.SIG: wire.RESREF, "urn": pre + "pa:m:Comp::inst"}
        if r.random() < 0.5:
            deps["__self__"] = [ins["__self__"]["urn"]]
    q["inputs"], q["deps"] = ins, deps
    if g.config:
        q["config"] = {k.replace("proj:", project + ":"): v.replace("cfg", "cfg%d" % i) for k, v in g.config.items()}
        q["config_secret_keys"] = g.secret_keys
    # the code that serves it
    sc = {"res": [], "vars": [], "optv": [], "ioptv": []}
    tmp = PModel(dict(q, ops=[], state={}))
    env = tmp.inputs()
    for k in ins:
        v = env["in:" + k]
        if v is not None:
            sc["vars"].append(("in:" + k, "o" if isinstance(v, MV) else "v"))
            sc["vars"].append(("in:" + k, "o" if isinstance(v, MV) else "v"))
    if kind == "construct":
        q["type"] = "pa:m:Comp"
        q["parent"] = r.choice((pre + "pulumi:pulumi:Stack::%s-%s" % (project, stack), pre + "par:m:Par::par", ""))
        q["aliases"] = [pre + "pa:m:Comp::%s-%d" % (x, i) for x in r.choice((["old"], ["old"], ["old", "older"], ["older", "old", "oldest"]))] if g.ch("alias") else []
        q["depends"] = r.sample(urns, r.randint(1, 2)) if g.ch("depends") else []
        if q["parent"] and g.ch("depends") and r.random() < 0.4:
            q["depends"].append(q["parent"])
        q["protect"] = r.random() < 0.3
        for pkg in ("pa", "pb"):
            if g.ch("provider"):
                q["providers"][pkg] = pre + "pulumi:providers:%s::prov-%s::%s" % (pkg, pkg, wire.UNKNOWN if g.preview and r.random() < 0.4 else "pid")
        if g.ch("hyd"):
            w = g.ref_wire()
            while ":providers:" not in w["urn"]:
                w = g.ref_wire()
            q["providers"][w["urn"].split("::")[2].split(":")[-1]] = w["urn"] + "::" + g.plans["get:" + w["urn"]]["id"]
        name = q["name"]
        op = {"op": "res", "kind": "comp", "n": name, "type": q["type"], "use": "$opts", "opts": {}, "props": {}}
        if r.random() < 0.3:
            op["props"] = {"p0": g.value(sc)}
        if r.random() < 0.3:
            op["mstyle"] = 1
            op["opts"] = {"version": "1.2.3"}
        plan = {}
        if g.ch("slow"):
            plan["slow"] = r.choice((0.5, 5.0, 60.0))
        if g.fail_left and g.ch("err") and r.random() < 0.3:
            g.fail_left -= 1
            plan["err"] = "refused"
        g.plans[name] = plan
        csc = {"res": list(sc["res"]), "vars": list(sc["vars"]), "cdepth": 1, "comp": name, "optv": [], "ioptv": []}
        op["children"] = g.ops(csc, r.randint(0, 4), in_comp=True)
        if r.random() < 0.8:
            op["outputs"] = {"out%d" % k: g.value(csc) for k in range(r.randint(0, 2))}
        q["ops"] = [op]
        sc["res"] += csc["res"]
    else:
        q["ops"] = g.ops(sc, r.randint(0, 3))
    q["state"] = {n: g.value(sc) for n in r.sample(("st0", "st1", "st2", "name", "value", "some_prop", "someProp", "provider", "state"), r.randint(0, 4))}
    if kind == "construct":
        q["noise"] = r.random() < 0.2
    elif r.random() < 0.15:
        q["failures"] = [["p", "bad p"], ["q", "bad q"]]
    if g.fail_left and g.ch("braise"):
        g.fail_left -= 1
        q["raise"] = "provider code fails"
    q["_plans"] = g.plans
    q["_extra_urns"] = sorted(set(g.extra) | set(urns) | {x for x in [q.get("parent")] if x} | set(q.get("depends", ())) |
                              {p.rpartition("::")[0] for p in q["providers"].values()} | {u for us in deps.values() for u in us})
    feats = {}
    for f in ("secrets", "resourceReferences", "outputValues"):
        if g.ch("nofeat"):
            feats[f] = False
    q["features"] = feats
    if g.fail_left and g.ch("death"):
        q["die_after"] = r.randint(1, 6)
    if g.ch("cancel"):
        q["cancel"] = r.choice((0.001, 0.01, 0.05, 0.3, 1.0, 4.0))
    return q


def fine(q):
    m = PModel(q).run()
    mixed, circ = m.wait_cycles()
    return not m.invalid and not mixed and not circ and not m.nested_wait and not m.unspecified and m.refs_answerable(circ)


def generate(seed, prof=None):
    prof = dict(PBASE, **(prof or {}))
    rng = random.Random("prov:%s" % seed)
    n = rng.randint(*prof["reqs"])
    reqs = []
    t = 0.0
    same = rng.random() < 0.5
    for i in range(n):
        po = ("proj", "stk") if same or i == 0 else ("proj%d" % i, "stk%d" % i)
        for k in range(200):
            q = request(random.Random("%s/%d/%d" % (seed, i, k)), prof, i, po)
            if fine(q):
                break
        else:
            raise RuntimeError("no request for seed %s" % seed)
        q["at"] = t
        t += rng.choice((0.0, 0.0, 0.001, 0.01, 0.1)) if rng.random() * 1000 < prof["overlap"] else 500.0
        reqs.append(q)
    ab = []
    if rng.random() < 0.4:
        for k in range(rng.randint(1, 3)):
            ab.append({"at": rng.choice((0.0, 0.0, 0.01, 1.0)), "ask": rng.choice((("info", 0), ("schema", 0), ("schema", 0), ("schema", 1), ("configure", 0)))})
    pv = [rng.choice(("1.0.0", "3.2.1-alpha.4"))] + rng.choice(([], [None], [""], ['{"name":"pa"}'], ['{\n "name": "p\u00e9"\n}\n']))
    return {"world": "prov", "about": ab, "prov": pv, "reqs": reqs, "spread": rng.choice((None, None, [0.001], [0.0, 1.0, 10.0], [0.001, 0.0015, 0.002, 0.003, 0.0]))}


def legal(wl):
    return bool(wl["reqs"]) and all(fine(q) for q in wl["reqs"]) and len({q["name"] for q in wl["reqs"]}) == len(wl["reqs"])

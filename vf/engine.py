"""The stub engine: resource monitor and engine log service, with planned responses and faults."""
import grpc

from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2
from google.protobuf import empty_pb2

from . import net as netmod
from . import wire

MON = "/pulumirpc.ResourceMonitor/"
ENG = "/pulumirpc.Engine/"

CODES = {
    "unknown": grpc.StatusCode.UNKNOWN,
    "invalid": grpc.StatusCode.INVALID_ARGUMENT,
    "internal": grpc.StatusCode.INTERNAL,
    "exhausted": grpc.StatusCode.RESOURCE_EXHAUSTED,
    "unavailable": grpc.StatusCode.UNAVAILABLE,
    "deadline": grpc.StatusCode.DEADLINE_EXCEEDED,
}


class Engine:
    """One deployment's engine. Records every request in arrival order."""

    def __init__(self, sim, net, wl, addr="mon:1", eng_addr="eng:1", tag=""):
        self.sim, self.net, self.wl = sim, net, wl
        self.addr, self.eng_addr, self.tag = addr, eng_addr, tag
        self.project, self.stack = wl.get("project", "proj"), wl.get("stack", "stk")
        self.preview = bool(wl.get("preview"))
        self.plans = wl.get("_plans") or {}
        self.features = wl.get("features") or {}
        self.requests = []        # (kind, seq, dict) in arrival order
        self.completed = {}       # urn -> time the response left
        self.registered = {}      # urn -> record
        self.by_name = {}
        self.logs = []
        self.outputs = []         # (urn, dict)
        self.dead = False
        self.lost = set()
        self.applied_errors = []  # faults that took effect
        self.served = 0
        self.delivered = {}       # name -> response delivered to client
        self.premature = []
        net.listen(addr, self.handle_mon)
        net.listen(eng_addr, self.handle_eng)
        self.die_at = wl.get("die_after")
        if wl.get("die_time") is not None:
            sim.at(wl["die_time"], self.die)

    # ------------------------------------------------------------ faults
    def die(self):
        if self.dead:
            return
        self.dead = True
        self.sim.fault("engine_death")
        self.sim.log("engine-dies", self.tag)
        self.net.down(self.addr)
        self.net.down(self.eng_addr)

    # ------------------------------------------------------------ dispatch
    def handle_mon(self, call):
        m = call.method.rsplit("/", 1)[-1]
        self.served += 1
        if self.die_at is not None and m != "SupportsFeature" and self.served >= self.die_at:
            self.die()
            return
        fn = getattr(self, "do_" + m, None)
        if fn is None:
            self.net.respond_error(call, grpc.StatusCode.UNIMPLEMENTED, "unimplemented " + m)
            return
        fn(call)

    def _plan_fault(self, call, plan, what):
        """Planned failures. Returns True if the call was answered here."""
        err = plan.get("err")
        if plan.get("lost"):
            # what was asked for happened, only its answer got lost: asking again would do it twice
            if id(plan) in self.lost:
                err = None
            self.lost.add(id(plan))
        if err:
            self.sim.fault(("answer_lost_" if plan.get("lost") else "rpc_error_") + what)
            self.applied_errors.append((what, err))
            self.net.respond_error(call, CODES[plan.get("code", "unknown")], err)
            return True
        if plan.get("hang_death"):
            # the engine goes away while this call is in flight
            self.applied_errors.append((what, "death"))
            self.sim.at(self.sim.latency(), self.die)
            self.sim.fault("death_in_flight")
            return True
        return False

    def do_SupportsFeature(self, call):
        req = resource_pb2.SupportsFeatureRequest.FromString(call.data)
        self.sim.log("feature", self.tag, req.id)
        if self.features.get("_unimplemented"):
            self.sim.fault("feature_rpc_unimplemented")
            self.net.respond_error(call, grpc.StatusCode.UNIMPLEMENTED, "unimplemented")
            return
        if self.features.get("_err"):
            self.sim.fault("feature_rpc_error")
            self.net.respond_error(call, CODES[self.features["_err"]], "feature query failed")
            return
        has = bool(self.features.get(req.id, True))
        self.net.respond(call, resource_pb2.SupportsFeatureResponse(hasSupport=has).SerializeToString())

    def make_urn(self, parent, typ, name):
        q = typ
        if parent:
            pt = parent.split("::")[2]
            if pt != "pulumi:pulumi:Stack":
                q = pt + "$" + typ
        return "urn:pulumi:%s::%s::%s::%s" % (self.stack, self.project, q, name)

    def _urn_ready(self, urn, who, role):
        """A request may only name URNs of resources whose registration has already finished."""
        if not urn or urn in self.completed or urn in self.wl.get("_extra_urns", ()):
            return
        self.premature.append((who, role, urn))

    def _outs(self, plan, obj, name):
        res = {}
        if plan.get("badout"):
            self.sim.fault("malformed_answer")
            res["bad"] = {"x": [{wire.SIG: "0123456789abcdef0123456789abcdef", "z": 1}]}
        for p, spec in (plan.get("out") or {}).items():
            k = spec[0]
            if k == "v":
                res[p] = spec[1]
            elif k == "echo":
                if spec[1] in obj:
                    res[p] = strip_outvals(obj[spec[1]])
            elif k == "sec":
                res[p] = wire.secret(spec[1])
            elif k == "unk":
                res[p] = wire.UNKNOWN if self.preview else spec[1]
            elif k == "ref":
                r = self.by_name.get(spec[1])
                if r is not None:
                    res[p] = {wire.SIG: wire.RESREF, "urn": r["urn"]}
                    if r["custom"]:
                        res[p]["id"] = r["id"]
        return res

    def do_RegisterResource(self, call):
        req = resource_pb2.RegisterResourceRequest.FromString(call.data)
        urn = self.make_urn(req.parent, req.type, req.name)
        d = {
            "rpc": "register", "urn": urn, "type": req.type, "name": req.name, "parent": req.parent, "custom": req.custom,
            "remote": req.remote, "object": wire.from_struct(req.object), "protect": req.protect,
            "dependencies": sorted(req.dependencies), "provider": req.provider, "providers": dict(req.providers),
            "propdeps": {k: sorted(v.urns) for k, v in req.propertyDependencies.items()},
            "dbr": req.deleteBeforeReplace, "dbr_defined": req.deleteBeforeReplaceDefined,
            "ignore": list(req.ignoreChanges), "version": req.version, "acceptSecrets": req.acceptSecrets,
            "acceptResources": req.acceptResources, "aso": list(req.additionalSecretOutputs), "aliases": list(req.aliases),
            "importId": req.importId, "timeouts": [req.customTimeouts.create, req.customTimeouts.update, req.customTimeouts.delete],
            "partial": req.supportsPartialValues, "replace": list(req.replaceOnChanges), "retain": req.retainOnDelete,
            "pdurl": req.pluginDownloadURL,
        }
        self.sim.log("register", self.tag, d["type"], d["name"], wire.canon(d["object"]), tuple(d["dependencies"]))
        d["t"] = self.sim.now
        self.requests.append(d)
        for u in d["dependencies"]:
            self._urn_ready(u, req.name, "dependency")
        for us in d["propdeps"].values():
            for u in us:
                self._urn_ready(u, req.name, "property dependency")
        self._urn_ready(req.parent, req.name, "parent")
        for ref in [req.provider] + list(req.providers.values()):
            if ref:
                self._urn_ready(ref.rpartition("::")[0], req.name, "provider")
        plan = self.plans.get(req.name) or {}
        if self._plan_fault(call, plan, "register"):
            return
        id_ = ""
        if req.custom:
            id_ = plan.get("id", "id-" + req.name)
            if self.preview and not plan.get("preview_id"):
                id_ = ""
        rec = {"urn": urn, "id": id_, "custom": req.custom, "name": req.name}
        self.by_name[req.name] = rec
        self.registered[urn] = rec
        obj = self._outs(plan, d["object"], req.name)
        if plan.get("echo_all"):
            for k, v in d["object"].items():
                obj.setdefault(k, strip_outvals(v))
        resp = resource_pb2.RegisterResourceResponse(urn=urn, id=id_, object=wire.to_struct(obj))
        for p, urns in (plan.get("pdeps") or {}).items():
            resp.propertyDependencies[p].urns.extend(urns)
        self._answer(call, resp, urn, plan)

    def _answer(self, call, resp, urn, plan):
        extra = plan.get("slow")
        if extra:
            self.sim.fault("slow_response")
        base = self.net.resp_latency(call.method)
        self.completed_at(base + (extra or 0.0), urn)
        self.net.respond(call, resp.SerializeToString(), base + (extra or 0.0))

    def _reply(self, call, resp, plan):
        extra = plan.get("slow")
        if extra:
            self.sim.fault("slow_response")
            self.net.respond(call, resp.SerializeToString(), self.net.resp_latency(call.method) + extra)
        else:
            self.net.respond(call, resp.SerializeToString())

    def completed_at(self, delay, urn):
        # scheduled just before the reply itself is delivered
        self.sim.at(delay, self._complete, urn)

    def _complete(self, urn):
        self.completed[urn] = self.sim.now

    def do_ReadResource(self, call):
        req = resource_pb2.ReadResourceRequest.FromString(call.data)
        urn = self.make_urn(req.parent, req.type, req.name)
        d = {
            "rpc": "read", "urn": urn, "type": req.type, "name": req.name, "parent": req.parent, "id": req.id,
            "object": wire.from_struct(req.properties), "dependencies": sorted(req.dependencies), "provider": req.provider,
            "version": req.version, "acceptSecrets": req.acceptSecrets, "acceptResources": req.acceptResources,
            "aso": list(req.additionalSecretOutputs), "pdurl": req.pluginDownloadURL,
        }
        self.sim.log("read", self.tag, d["type"], d["name"], d["id"], wire.canon(d["object"]), tuple(d["dependencies"]))
        d["t"] = self.sim.now
        self.requests.append(d)
        for u in d["dependencies"]:
            self._urn_ready(u, req.name, "dependency")
        self._urn_ready(req.parent, req.name, "parent")
        if req.provider:
            self._urn_ready(req.provider.rpartition("::")[0], req.name, "provider")
        plan = self.plans.get(req.name) or {}
        if self._plan_fault(call, plan, "read"):
            return
        rec = {"urn": urn, "id": req.id, "custom": True, "name": req.name}
        self.by_name[req.name] = rec
        self.registered[urn] = rec
        obj = self._outs(plan, d["object"], req.name)
        if plan.get("echo_all"):
            for k, v in d["object"].items():
                obj.setdefault(k, v)
        self._answer(call, resource_pb2.ReadResourceResponse(urn=urn, properties=wire.to_struct(obj)), urn, plan)

    def do_RegisterResourceOutputs(self, call):
        req = resource_pb2.RegisterResourceOutputsRequest.FromString(call.data)
        d = {"rpc": "outputs", "urn": req.urn, "object": wire.from_struct(req.outputs)}
        self.sim.log("outputs", self.tag, req.urn, wire.canon(d["object"]))
        d["t"] = self.sim.now
        self.requests.append(d)
        self._urn_ready(req.urn, req.urn, "outputs")
        name = req.urn.rpartition("::")[2]
        plan = self.plans.get("outputs:" + name) or {}
        self.outputs.append((req.urn, d["object"]))
        if self._plan_fault(call, plan, "outputs"):
            return
        self._reply(call, empty_pb2.Empty(), plan)

    def do_Invoke(self, call):
        req = resource_pb2.ResourceInvokeRequest.FromString(call.data)
        args = wire.from_struct(req.args)
        d = {"rpc": "invoke", "tok": req.tok, "args": args, "provider": req.provider, "version": req.version,
             "acceptResources": req.acceptResources, "pdurl": req.pluginDownloadURL}
        self.sim.log("invoke", self.tag, req.tok, wire.canon(args))
        d["t"] = self.sim.now
        self.requests.append(d)
        if req.provider:
            self._urn_ready(req.provider.rpartition("::")[0], req.tok, "provider")
        if req.tok == "pulumi:pulumi:getResource":
            urn = args.get("urn")
            plan = self.plans.get("get:" + str(urn)) or {}
            if self._plan_fault(call, plan, "get"):
                return
            if plan.get("failures"):
                self.sim.fault("invoke_failures")
                self.applied_errors.append(("get", "failures"))
                resp = provider_pb2.InvokeResponse(failures=self._failures(plan, "urn", "no such resource"))
            else:
                resp = provider_pb2.InvokeResponse()
            if plan.get("failures") in (None, 2):
                st = self._outs(plan, {}, "")
                getattr(resp, "return").CopyFrom(wire.to_struct({"urn": urn, "id": plan.get("id", ""), "state": st}))
                if not plan.get("failures"):
                    self.completed_at(0, urn)
            self._reply(call, resp, plan)
            return
        plan = self.plans.get("invoke:" + req.tok) or {}
        if self._plan_fault(call, plan, "invoke"):
            return
        if plan.get("failures"):
            self.sim.fault("invoke_failures")
            self.applied_errors.append(("invoke", "failures"))
            resp = provider_pb2.InvokeResponse(failures=self._failures(plan, "p", "bad " + req.tok))
        else:
            resp = provider_pb2.InvokeResponse()
        if plan.get("failures") in (None, 2):
            ret = {"r": "I(%s|%s)" % (req.tok, wire.canon(wire.nonull(args)))}
            if plan.get("ret"):
                ret.update(plan["ret"])
            getattr(resp, "return").CopyFrom(wire.to_struct(ret))
        self._reply(call, resp, plan)

    def _failures(self, plan, prop, reason):
        fs = [provider_pb2.CheckFailure(property=prop, reason=reason)]
        if plan["failures"] == 3:
            fs = [provider_pb2.CheckFailure(property="", reason="")] + fs
        return fs

    def do_Call(self, call):
        req = provider_pb2.CallRequest.FromString(call.data)
        args = wire.from_struct(req.args)
        d = {"rpc": "call", "tok": req.tok, "args": args, "provider": req.provider, "version": req.version,
             "argdeps": {k: sorted(v.urns) for k, v in req.argDependencies.items()}, "pdurl": req.pluginDownloadURL}
        self.sim.log("call", self.tag, req.tok, wire.canon(args))
        d["t"] = self.sim.now
        self.requests.append(d)
        for us in d["argdeps"].values():
            for u in us:
                self._urn_ready(u, req.tok, "argument dependency")
        plan = self.plans.get("call:" + req.tok) or {}
        if self._plan_fault(call, plan, "call"):
            return
        if plan.get("failures"):
            self.sim.fault("call_failures")
            self.applied_errors.append(("call", "failures"))
            resp = provider_pb2.CallResponse(failures=self._failures(plan, "p", "bad " + req.tok))
        else:
            resp = provider_pb2.CallResponse()
        if plan.get("failures") in (None, 2):
            ret = self._outs(plan, args, "")
            getattr(resp, "return").CopyFrom(wire.to_struct(ret))
            for p, urns in (plan.get("pdeps") or {}).items():
                resp.returnDependencies[p].urns.extend(urns)
        self._reply(call, resp, plan)

    # ------------------------------------------------------------ engine log
    def handle_eng(self, call):
        if call.method.endswith("/Log"):
            req = engine_pb2.LogRequest.FromString(call.data)
            if req.severity != engine_pb2.DEBUG:
                self.sim.log("log", self.tag, req.severity, req.urn, req.message[:60].split("\n")[0])
            self.logs.append({"sev": req.severity, "msg": req.message, "urn": req.urn, "stream": req.streamId, "eph": req.ephemeral})
            if req.urn:
                self._urn_ready(req.urn, "log", "log")
            self.net.respond(call, empty_pb2.Empty().SerializeToString(), 0.0005)
        else:
            self.net.respond_error(call, grpc.StatusCode.UNIMPLEMENTED, "unimplemented")


def strip_outvals(v):
    """What an engine returns for output values: secret envelopes, unknown markers or the plain value."""
    if isinstance(v, dict):
        if v.get(wire.SIG) == wire.OUTVAL:
            if "value" not in v:
                return wire.UNKNOWN
            x = strip_outvals(v["value"])
            return wire.secret(x) if v.get("secret") else x
        return {k: strip_outvals(x) for k, x in v.items()}
    if isinstance(v, list):
        return [strip_outvals(x) for x in v]
    return v

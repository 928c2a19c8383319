"""Shared by the demonstrations: a scripted engine inside the process, real threads, short real delays."""
import asyncio
import os
import sys
import threading
import time

sys.path.insert(0, os.path.join(os.getcwd(), "sdk/python/lib"))
import grpc  # noqa: E402
import pulumi  # noqa: E402
from google.protobuf import json_format, struct_pb2  # noqa: E402
from pulumi.runtime import rpc, settings  # noqa: E402
from pulumi.runtime.proto import engine_pb2, provider_pb2, resource_pb2  # noqa: E402
from pulumi.runtime.stack import run_in_stack  # noqa: E402
from google.protobuf import empty_pb2  # noqa: E402

SECRET = "1b47061264138c4ac30d75fd1eb44270"
SIG = "4dabf18193072939515e22adb298388d"


class Err(grpc.RpcError):
    def __init__(self, code=grpc.StatusCode.UNKNOWN, details="refused"):
        self._c, self._d = code, details

    def code(self):
        return self._c

    def details(self):
        return self._d


def struct(d):
    s = struct_pb2.Struct()
    s.update(d)
    return s


class Monitor:
    """outs: name -> dict of outputs; delay: name -> seconds; fail: name -> exception; features: id -> bool."""

    def __init__(self, outs=None, delay=None, fail=None, features=None, ids=None, pdeps=None):
        self.outs, self.delay, self.fail = outs or {}, delay or {}, fail or {}
        self.features, self.ids, self.pdeps = features or {}, ids or {}, pdeps or {}
        self.regs, self.outputs, self.invokes, self.calls, self.reads, self.logs, self.order = {}, {}, [], {}, {}, [], []
        self.feature_delay = 0
        self.lock = threading.Lock()

    def _pause(self, name):
        time.sleep(self.delay.get(name, 0.01))
        if name in self.fail:
            raise self.fail[name]

    def SupportsFeature(self, req):
        time.sleep(self.feature_delay)
        return resource_pb2.SupportsFeatureResponse(hasSupport=self.features.get(req.id, True))

    def RegisterResource(self, req):
        with self.lock:
            self.regs[req.name] = req
            self.order.append(("register", req.name))
        self._pause(req.name)
        obj = json_format.MessageToDict(req.object)
        obj.update(self.outs.get(req.name, {}))
        r = resource_pb2.RegisterResourceResponse(urn=urn(req.type, req.name), object=struct(obj))
        if req.custom:
            r.id = self.ids.get(req.name, "id-" + req.name)
        for k, us in self.pdeps.get(req.name, {}).items():
            r.propertyDependencies[k].urns.extend(us)
        return r

    def ReadResource(self, req):
        with self.lock:
            self.reads[req.name] = req
        self._pause(req.name)
        obj = json_format.MessageToDict(req.properties)
        obj.update(self.outs.get(req.name, {}))
        return resource_pb2.ReadResourceResponse(urn=urn(req.type, req.name), properties=struct(obj))

    def RegisterResourceOutputs(self, req):
        with self.lock:
            self.outputs.setdefault(req.urn.split("::")[-1], []).append(json_format.MessageToDict(req.outputs))
        self._pause("outputs:" + req.urn.split("::")[-1])
        return empty_pb2.Empty()

    def Invoke(self, req):
        with self.lock:
            self.invokes.append(req)
        self._pause(req.tok)
        r = self.outs.get(req.tok, {})
        return provider_pb2.InvokeResponse(**{"return": struct(r)})

    def Call(self, req):
        with self.lock:
            self.calls[req.tok] = req
        self._pause(req.tok)
        return provider_pb2.CallResponse(**{"return": struct(self.outs.get(req.tok, {}))})


class Engine:
    def __init__(self):
        self.logs = []

    def Log(self, req):
        self.logs.append(req)

    def SetRootResource(self, req):
        return engine_pb2.SetRootResourceResponse()

    def GetRootResource(self, req):
        return engine_pb2.GetRootResourceResponse()


def urn(typ, name):
    return "urn:pulumi:stk::proj::%s::%s" % (typ, name)


class Res(pulumi.CustomResource):
    def __init__(self, name, props=None, opts=None, typ="pkg:mod:Res"):
        super().__init__(typ, name, props or {}, opts)


class Comp(pulumi.ComponentResource):
    def __init__(self, name, opts=None, remote=False, props=None, typ="my:mod:Comp"):
        super().__init__(typ, name, props or {}, opts, remote)


class Prov(pulumi.ProviderResource):
    def __init__(self, name, pkg, opts=None):
        super().__init__(pkg, name, {}, opts)


def run(program, mon=None, preview=False, timeout=20, engine=None):
    """Runs the program as the executor does. Returns the exception it ended with, or None. Hanging is TimeoutError."""
    mon = mon or Monitor()
    from pulumi.runtime.rpc_manager import RPC_MANAGER
    RPC_MANAGER.clear()
    settings.reset_options(project="proj", stack="stk", preview=preview)
    settings.configure(settings.Settings(project="proj", stack="stk", monitor=mon, engine=engine or Engine(), dry_run=preview))
    out = {}

    import contextvars
    ctx = contextvars.copy_context()

    def go():
        import logging
        logging.getLogger("asyncio").setLevel(logging.CRITICAL)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(run_in_stack(program))
            out["r"] = None
        except BaseException as e:  # noqa
            out["r"] = e

    t = threading.Thread(target=lambda: ctx.run(go), daemon=True)
    t.start()
    t.join(timeout)
    return out.get("r", TimeoutError("the program hangs")) if "r" in out else TimeoutError("the program hangs")


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)

"""The simulated network: gRPC channels and servers whose every delivery is a kernel event.

The generated stubs, servicers and protobuf (de)serialisation are the real ones.
"""
import asyncio
import contextvars
import inspect
import threading

import grpc
import grpc.aio

from . import kernel


class SimRpcError(grpc.RpcError):
    def __init__(self, code, details):
        super().__init__(details)
        self._c, self._d = code, details

    def code(self):
        return self._c

    def details(self):
        return self._d

    def initial_metadata(self):
        return ()

    def trailing_metadata(self):
        return ()

    def debug_error_string(self):
        return ""

    def cancelled(self):
        return False

    def exception(self, timeout=None):
        return self

    def __str__(self):
        return "<RPC terminated with %s: %s>" % (self._c, self._d)


class Call:
    __slots__ = ("target", "method", "data", "done", "reply", "error", "waiter", "cb", "n", "aborted", "abort_cb")

    def __init__(self, target, method, data, n):
        self.target, self.method, self.data, self.n = target, method, data, n
        self.done = False
        self.reply = None
        self.error = None
        self.waiter = None
        self.cb = None
        self.aborted = False
        self.abort_cb = None

    def finish(self, reply=None, error=None):
        if self.done:
            return
        self.done = True
        self.reply, self.error = reply, error
        if self.waiter is not None:
            kernel.SIM.wake(self.waiter)
        if self.cb is not None:
            self.cb(self)


class Net:
    """target -> handler(call). A handler finishes the call now or later."""

    def __init__(self, sim):
        self.sim = sim
        self.services = {}
        self.inflight = {}
        self.ncalls = 0
        self.port = 40000
        self.req_latency = lambda m: sim.latency()
        self.resp_latency = lambda m: sim.latency()
        self.down_targets = set()

    def listen(self, target, handler):
        self.services[target] = handler
        self.down_targets.discard(target)

    def new_port(self):
        self.port += 1
        return self.port

    def down(self, target, details="Connection reset by peer"):
        """The peer dies: in-flight calls and all later ones fail with UNAVAILABLE."""
        self.down_targets.add(target)
        for c in list(self.inflight.values()):
            if c.target == target:
                self.sim.at(0.0, self._fail, c, grpc.StatusCode.UNAVAILABLE, details)

    def _fail(self, c, code, details):
        self.inflight.pop(c.n, None)
        c.finish(error=SimRpcError(code, details))

    def start(self, target, method, data, cb=None):
        self.ncalls += 1
        c = Call(target, method, data, self.ncalls)
        c.cb = cb
        self.inflight[c.n] = c
        if target in self.down_targets or target not in self.services:
            self.sim.at(self.req_latency(method), self._fail, c, grpc.StatusCode.UNAVAILABLE,
                        "failed to connect to all addresses")
        else:
            self.sim.at(self.req_latency(method), self._deliver, c)
        return c

    def _deliver(self, c):
        if c.done:
            return
        h = self.services.get(c.target)
        if h is None or c.target in self.down_targets:
            self._fail(c, grpc.StatusCode.UNAVAILABLE, "failed to connect to all addresses")
            return
        h(c)

    def respond(self, c, data, delay=None):
        d = self.resp_latency(c.method) if delay is None else delay
        self.sim.at(d, self._reply, c, data)

    def _reply(self, c, data):
        if c.target in self.down_targets:
            self._fail(c, grpc.StatusCode.UNAVAILABLE, "Connection reset by peer")
            return
        self.inflight.pop(c.n, None)
        c.finish(reply=data)

    def respond_error(self, c, code, details, delay=None):
        d = self.resp_latency(c.method) if delay is None else delay
        self.sim.at(d, self._fail, c, code, details)

    def call(self, target, method, data, timeout=None):
        sim = self.sim
        c = self.start(target, method, data)
        deadline = None if timeout is None else sim.now + timeout
        while not c.done:
            c.waiter = sim.current
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                self.inflight.pop(c.n, None)
                c.done = True
                raise SimRpcError(grpc.StatusCode.DEADLINE_EXCEEDED, "Deadline Exceeded")
            sim.block(left, "rpc " + method.rsplit("/", 1)[-1])
        if c.error is not None:
            raise c.error
        return c.reply


NET = None


class _UnaryUnary:
    def __init__(self, target, method, ser, des):
        self.target, self.method, self.ser, self.des = target, method, ser, des

    def __call__(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        data = self.ser(request)
        return self.des(NET.call(self.target, self.method, data, timeout))

    def with_call(self, request, **kw):
        return self(request, **kw), None

    def future(self, request, **kw):
        raise NotImplementedError("future() calls are not simulated")


class SimChannel:
    def __init__(self, target, options=None):
        self.target = target
        self.options = options

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, **kw):
        return _UnaryUnary(self.target, method, request_serializer, response_deserializer)

    def _unsupported(self, method, **kw):
        def f(*a, **k):
            raise NotImplementedError("streaming call %s is not simulated" % method)
        return f

    def unary_stream(self, method, request_serializer=None, response_deserializer=None, **kw):
        return self._unsupported(method)

    stream_unary = unary_stream
    stream_stream = unary_stream

    def subscribe(self, *a, **k):
        pass

    def unsubscribe(self, *a, **k):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _insecure_channel(target, options=None, compression=None):
    return SimChannel(target, options)


class Ctx:
    """A servicer context."""

    def __init__(self, call):
        self._call = call
        self._code = None
        self._details = ""
        self._active = True

    def set_code(self, c):
        self._code = c

    def set_details(self, d):
        self._details = d

    def abort(self, code, details):
        self._code, self._details = code, details
        raise Exception(details)

    def is_active(self):
        return not self._call.done

    def peer(self):
        return "sim"

    def invocation_metadata(self):
        return ()

    def time_remaining(self):
        return None

    def add_callback(self, cb):
        return True

    def cancel(self):
        pass

    def set_trailing_metadata(self, *a):
        pass

    def send_initial_metadata(self, *a):
        pass


class _Details:
    def __init__(self, method):
        self.method = method
        self.invocation_metadata = ()


class SimServer:
    """grpc.server(): handlers run on the executor it was given (the real ThreadPoolExecutor)."""

    instances = []

    def __init__(self, pool, handlers=None, interceptors=None, options=None, maximum_concurrent_rpcs=None, compression=None, **kw):
        self.pool = pool
        self.handlers = list(handlers or [])
        self.targets = []
        self.running = False
        self.calls = []
        self.stopped = threading.Event()
        self.owner = kernel.SIM.current if kernel.SIM is not None else None
        SimServer.instances.append(self)

    def add_generic_rpc_handlers(self, hs):
        self.handlers.extend(hs)

    def add_registered_method_handlers(self, *a):
        pass

    def add_insecure_port(self, address):
        host, _, port = address.rpartition(":")
        p = int(port) if port.isdigit() and int(port) else NET.new_port()
        for h in {"127.0.0.1", "localhost", host}:
            self.targets.append("%s:%d" % (h, p))
        return p

    def start(self):
        self.running = True
        for t in self.targets:
            NET.listen(t, self._handle)

    def _find(self, method):
        for h in self.handlers:
            m = h.service(_Details(method))
            if m is not None:
                return m
        return None

    def _handle(self, call):
        m = self._find(call.method)
        if m is None:
            NET.respond_error(call, grpc.StatusCode.UNIMPLEMENTED, "Method not found!")
            return
        self.calls.append(call)
        # gRPC's own polling thread submits to the pool; do the same from a short-lived thread
        kernel.SIM.start_thread("grpc-poll", lambda: self.pool.submit(self._run, m, call), daemon=True)

    def _run(self, m, call):
        ctx = Ctx(call)
        try:
            resp = m.unary_unary(m.request_deserializer(call.data), ctx)
            data = m.response_serializer(resp)
        except BaseException as e:  # noqa
            NET.respond_error(call, ctx._code or grpc.StatusCode.UNKNOWN, ctx._details or "Exception calling application: %s" % e)
            return
        if ctx._code not in (None, grpc.StatusCode.OK):
            NET.respond_error(call, ctx._code, ctx._details)
        else:
            NET.respond(call, data)

    def stop(self, grace):
        was = self.running
        self.running = False
        for t in self.targets:
            NET.services.pop(t, None)
        if was:
            def kill():
                for c in self.calls:
                    if not c.done:
                        NET._fail(c, grpc.StatusCode.CANCELLED if grace is None else grpc.StatusCode.UNAVAILABLE, "server stopped")
                self.stopped.set()
            if grace:
                kernel.SIM.at(grace, kill)
            else:
                kill()
        else:
            self.stopped.set()
        return self.stopped

    def wait_for_termination(self, timeout=None):
        return not self.stopped.wait(timeout)


class SimAioServer:
    """grpc.aio.server(): each request is a task on the loop that started the server."""

    instances = []

    def __init__(self, *a, **kw):
        self.handlers = []
        self.targets = []
        self.loop = None
        self.term = None
        SimAioServer.instances.append(self)

    def add_generic_rpc_handlers(self, hs):
        self.handlers.extend(hs)

    def add_insecure_port(self, address):
        host, _, port = address.rpartition(":")
        p = int(port) if port.isdigit() and int(port) else NET.new_port()
        for h in sorted({"127.0.0.1", "localhost", host}):
            self.targets.append("%s:%d" % (h, p))
        return p

    async def start(self):
        self.loop = asyncio.get_running_loop()
        self.ctx = contextvars.copy_context()
        self.term = self.loop.create_future()
        for t in self.targets:
            NET.listen(t, self._handle)

    _find = SimServer._find

    def _handle(self, call):
        m = self._find(call.method)
        if m is None:
            NET.respond_error(call, grpc.StatusCode.UNIMPLEMENTED, "Method not found!")
            return

        def begin():
            t = self.loop.create_task(self._run(m, call), context=self.ctx.copy())
            call.abort_cb = t

        self.loop.call_soon_threadsafe(begin)

    def cancel_call(self, call):
        """The client gives up: grpc.aio cancels the handler's task."""
        def go():
            if call.abort_cb is not None and not call.done:
                call.abort_cb.cancel()
        self.loop.call_soon_threadsafe(go)

    async def _run(self, m, call):
        ctx = Ctx(call)
        try:
            r = m.unary_unary(m.request_deserializer(call.data), ctx)
            if inspect.isawaitable(r):
                r = await r
            data = m.response_serializer(r)
        except asyncio.CancelledError:
            NET.respond_error(call, grpc.StatusCode.CANCELLED, "Locally cancelled by application!")
            return
        except Exception as e:  # noqa
            NET.respond_error(call, ctx._code or grpc.StatusCode.UNKNOWN, ctx._details or "Unexpected %s: %s" % (type(e), e))
            return
        NET.respond(call, data)

    async def stop(self, grace):
        for t in self.targets:
            NET.services.pop(t, None)
        if not self.term.done():
            self.term.set_result(True)

    async def wait_for_termination(self, timeout=None):
        await self.term
        return True


def install():
    grpc.insecure_channel = _insecure_channel
    grpc.server = SimServer
    grpc.aio.server = lambda *a, **k: SimAioServer(*a, **k)


install()

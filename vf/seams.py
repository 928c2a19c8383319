"""Puts the interpreter's own sources of nondeterminism behind the kernel.

Must be imported before asyncio / concurrent.futures / the code under test.  Outside a
running simulation the patched primitives behave like uncontended real ones.
"""
import _thread
import collections
import os
import queue
import random
import sys
import threading
import time

from . import kernel

_real_time = time.time
_real_monotonic = time.monotonic
_real_sleep = time.sleep
_real_perf = time.perf_counter


def _sim():
    s = kernel.SIM
    return s if s is not None and not s.driver_done else None


# ---------------------------------------------------------------- locks
class SimLock:
    def __init__(self):
        self._locked = False
        self._waiters = collections.deque()

    def acquire(self, blocking=True, timeout=-1):
        sim = _sim()
        if sim is None:
            if self._locked and blocking:
                raise RuntimeError("lock contention outside the simulation")
            if self._locked:
                return False
            self._locked = True
            return True
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        me = sim.current
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._locked:
            self._waiters.append(me)
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                self._drop(me)
                return False
            ok = sim.block(left, "lock")
            self._drop(me)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def _drop(self, me):
        try:
            self._waiters.remove(me)
        except ValueError:
            pass

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = _sim()
        if sim is not None:
            while self._waiters:
                w = self._waiters.popleft()
                if w.state == kernel.BLOCKED:
                    sim.wake(w)
                    break
        else:
            self._waiters.clear()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters.clear()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


threading.Lock = SimLock
threading._allocate_lock = SimLock
threading._CRLock = None          # RLock() now builds the pure-Python _PyRLock over SimLock
queue.SimpleQueue = queue._PySimpleQueue
queue.threading = threading


def _is_set(self):
    # anything may happen between looking at something else and looking at this
    sim = _sim()
    if sim is not None:
        sim.yield_("is-set")
    return self._flag


threading.Event.is_set = _is_set


# ---------------------------------------------------------------- threads
_thread_serial = [0]
_orig_thread_init = threading.Thread.__init__
_orig_start = threading.Thread.start
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive


def _t_init(self, *a, **kw):
    _thread_serial[0] += 1
    self.__dict__["_vf_serial"] = _thread_serial[0]
    _orig_thread_init(self, *a, **kw)


def _t_hash(self):
    return self.__dict__.get("_vf_serial", 0) * 2654435761 % (1 << 61)


def _t_start(self):
    sim = _sim()
    if sim is None:
        raise RuntimeError("thread started outside the simulation")
    if self._started._flag:
        raise RuntimeError("threads can only be started once")

    def body():
        self._set_ident()
        threading._active[_thread.get_ident()] = self
        self._started.set()
        try:
            self.run()
        except kernel.SimAbort:
            raise
        except BaseException as exc:  # what threading's excepthook would print
            s = kernel.SIM
            s.log("thread-exception", type(exc).__name__)
            s.probe("thread_exception")
            s.__dict__.setdefault("thread_exceptions", []).append(exc)
            if DEBUG:
                import traceback
                traceback.print_exc()
        finally:
            threading._active.pop(_thread.get_ident(), None)
            self.__dict__["_vf_done"] = True

    self.__dict__["_vf_done"] = False
    # the real name carries a counter or a user label; keep the label only
    self.__dict__["_vf_rec"] = sim.start_thread("T%d" % len(sim.threads), body, bool(self.daemon), self)
    sim.yield_("thread-start")


def _t_join(self, timeout=None):
    rec = self.__dict__.get("_vf_rec")
    sim = _sim()
    if rec is None:
        if not self._started._flag:
            raise RuntimeError("cannot join thread before it is started")
        return
    if sim is None:
        return
    deadline = None if timeout is None else sim.now + max(0.0, timeout)
    while rec.state != kernel.DONE:
        left = None if deadline is None else deadline - sim.now
        if left is not None and left <= 0:
            return
        rec.joiners.append(sim.current)
        if not sim.block(left, "join"):
            return


def _t_alive(self):
    rec = self.__dict__.get("_vf_rec")
    if rec is not None:
        return rec.state != kernel.DONE
    return isinstance(self, threading._MainThread)


threading.Thread.__init__ = _t_init
threading.Thread.__hash__ = _t_hash
threading.Thread.start = _t_start
threading.Thread.join = _t_join
threading.Thread.is_alive = _t_alive


# ---------------------------------------------------------------- clock
def _now_time():
    s = kernel.SIM
    return 1_600_000_000.0 + s.now if s is not None else _real_time()


def _now_mono():
    s = kernel.SIM
    return s.now if s is not None else _real_monotonic()


def _sleep(d):
    s = _sim()
    if s is None:
        return _real_sleep(d)
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleep(d)


time.time = _now_time
time.monotonic = _now_mono
time.perf_counter = _now_mono
time.sleep = _sleep
threading._time = _now_mono
queue.time = _now_mono

DEBUG = bool(os.environ.get("VF_DEBUG"))

_cpu = [4]
os.cpu_count = lambda: _cpu[0]

import asyncio  # noqa: E402
import asyncio.base_events  # noqa: E402
import asyncio.events  # noqa: E402
import asyncio.tasks  # noqa: E402
import concurrent.futures  # noqa: E402
import concurrent.futures.thread as _cft  # noqa: E402

_cft._global_shutdown_lock = SimLock()


# ---------------------------------------------------------------- asyncio
class SimTask(asyncio.Task):
    """A task whose hash is a per-run serial, so set order does not depend on addresses."""

    def __init__(self, coro, **kw):
        s = kernel.SIM
        if s is not None:
            s.serial += 1
            self._vf = (s.serial * 2654435761 ^ s.seed) & 0xFFFFFFFF
        else:
            self._vf = 0
        super().__init__(coro, **kw)

    def __hash__(self):
        return self._vf

    def __eq__(self, other):
        return self is other


def _factory(loop, coro, context=None):
    if context is None:
        return SimTask(coro, loop=loop)
    return SimTask(coro, loop=loop, context=context)


class _Selector:
    """select() is where a loop thread gives way: the kernel decides who goes next."""

    def __init__(self, loop):
        self.loop = loop
        self.woken = False
        self.waiter = None

    def select(self, timeout=None):
        sim = _sim()
        if sim is None:
            return []
        if timeout is not None and timeout <= 0:
            sim.yield_("select0")
            self.woken = False
            return []
        if self.woken:
            self.woken = False
            sim.yield_("select")
            return []
        self.waiter = sim.current
        sim.block(timeout, "event loop idle")
        self.waiter = None
        self.woken = False
        return []

    def wake(self):
        self.woken = True
        if self.waiter is not None:
            kernel.SIM.wake(self.waiter)

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.set_task_factory(_factory)

    def time(self):
        return _now_mono()

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._selector.wake()

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        if self.is_closed():
            return
        super().close()

    # signal handlers are outside the simulation
    def add_signal_handler(self, *a):
        pass

    def remove_signal_handler(self, *a):
        return False


class SimPolicy(asyncio.events.BaseDefaultEventLoopPolicy):
    _loop_factory = SimLoop


asyncio.set_event_loop_policy(SimPolicy())


def reset_for_run(sim):
    """Called in the forked child before anything runs."""
    random.seed(sim.seed)
    _cpu[0] = (4, 1, 2, 28)[sim.choose(4)]


_uuid_n = [0]

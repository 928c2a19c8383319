"""The simulation kernel: one process, real Python threads parked and released one
at a time, a virtual clock, an event heap, and one recorded stream of choices.

Everything nondeterministic asks `Sim.choose`.  In record mode the answer comes from a
PRNG seeded with the run's seed; in replay mode it comes from the recorded list (0, the
"nothing unusual" answer, once the list is exhausted).
"""
import _thread
import heapq
import os
import random
import sys
import traceback
import zlib

RUNNABLE, BLOCKED, DONE = 0, 1, 2

SIM = None  # the active simulation, if any (one per process)


class SimAbort(BaseException):
    """Raised to unwind the driver when the run cannot continue."""


class SimThread:
    __slots__ = ("id", "name", "lock", "state", "timed_out", "obj", "daemon", "wait_what", "gen", "joiners", "since")

    def __init__(self, id_, name, daemon=False, obj=None):
        self.id = id_
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = RUNNABLE
        self.timed_out = False
        self.obj = obj
        self.daemon = daemon
        self.wait_what = ""
        self.gen = 0
        self.joiners = []
        self.since = 0.0     # runnable, and not running, since


class Sim:
    def __init__(self, seed, choices=None, knobs=None, trace_full=False):
        self.seed = seed
        self.rng = random.Random(seed)
        self.replay = choices is not None
        self.choices = list(choices) if choices is not None else []
        self.cpos = 0
        k = {
            "keep": 60,         # weight of letting the running thread go on
            "switch": 25,       # weight of another runnable thread
            "advance": 15,      # weight of advancing the clock although someone can run
            "preempt": 0,       # mean number of source lines between preemptions (0: none)
            "step_cost": 20e-6,
            "max_steps": 60000,
            "max_time": 7200.0,
        }
        k.update(knobs or {})
        self.knobs = k
        self.now = 1000.0
        self.start = self.now
        self.seq = 0
        self.timers = []
        self.threads = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.advances = 0
        self.preemptions = 0
        self.trace = []
        self.trace_hash = 0
        self.trace_full = trace_full
        self.faults = {}
        self.probes = {}
        self.violations = []
        self.on_abort = None
        self.driver_done = False
        self.serial = 0
        self.stuck = None
        self.harness_error = None

    # ---------------------------------------------------------------- choices
    def choose(self, n, tag=""):
        """An integer in [0, n). 0 is the unremarkable answer."""
        if n <= 1:
            return 0
        if self.replay:
            if self.cpos < len(self.choices):
                c = self.choices[self.cpos]
                if c >= n or c < 0:
                    c = c % n
            else:
                c = 0
            self.cpos += 1
            return c
        c = self.rng.randrange(n)
        self.choices.append(c)
        self.cpos += 1
        return c

    def weighted(self, weights):
        """Index into weights; index 0 is the default on replay exhaustion."""
        if len(weights) <= 1:
            return 0
        if self.replay:
            if self.cpos < len(self.choices):
                c = self.choices[self.cpos] % len(weights)
            else:
                c = 0
            self.cpos += 1
            return c
        t = self.rng.random() * sum(weights)
        c = 0
        for i, w in enumerate(weights):
            t -= w
            if t < 0:
                c = i
                break
        self.choices.append(c)
        self.cpos += 1
        return c

    def chance(self, permille, tag=""):
        """True with probability permille/1000 (False on replay exhaustion)."""
        if permille <= 0:
            return False
        return self.weighted((1000 - permille, permille)) == 1

    LAT = (0.001, 0.0, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 3.0)

    def latency(self, spread=None):
        t = self.LAT if spread is None else spread
        return t[self.choose(len(t))]

    # ---------------------------------------------------------------- records
    def log(self, kind, *args):
        """Append to the history. Never draws a choice."""
        t = round(self.now - self.start, 6)
        ent = (t, kind) + args
        self.trace.append(ent)
        self.trace_hash = zlib.crc32(repr(ent).encode(), self.trace_hash)

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def violation(self, klass, msg):
        self.violations.append((klass, msg))

    # ---------------------------------------------------------------- time
    def at(self, delay, fn, *args):
        self.seq += 1
        ent = [self.now + max(0.0, delay), self.seq, fn, args]
        heapq.heappush(self.timers, ent)
        return ent

    @staticmethod
    def cancel(ent):
        ent[2] = None

    # ---------------------------------------------------------------- threads
    def spawn_record(self, name, daemon=False, obj=None):
        t = SimThread(len(self.threads), name, daemon, obj)
        t.since = self.now
        self.threads.append(t)
        return t

    def adopt_main(self):
        t = self.spawn_record("main")
        self.current = t
        return t

    def start_thread(self, name, fn, daemon=False, obj=None):
        """Run fn on a new real thread under the baton."""
        t = self.spawn_record(name, daemon, obj)

        def boot():
            t.lock.acquire()
            try:
                install_line_hook()
                fn()
            except SimAbort:
                pass
            except BaseException:  # noqa
                if not daemon or name != "pulumi-cli":
                    raise
                self.harness_error = self.harness_error or traceback.format_exc()
            finally:
                self.finish_thread(t)

        _thread.start_new_thread(boot, ())
        return t

    def finish_thread(self, t):
        t.state = DONE
        for j in t.joiners:
            self.wake(j)
        t.joiners = []
        self._schedule(t)

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.timed_out = False
            t.gen += 1
            t.since = self.now

    def _timeout_wake(self, t, gen):
        if t.state == BLOCKED and t.gen == gen:
            t.state = RUNNABLE
            t.timed_out = True
            t.gen += 1
            t.since = self.now

    def block(self, timeout=None, what=""):
        """Park the calling thread until `wake` or the timeout. True: woken, False: timed out."""
        me = self.current
        me.state = BLOCKED
        me.wait_what = what
        ent = None
        if timeout is not None:
            ent = self.at(timeout, self._timeout_wake, me, me.gen)
        self._schedule(me)
        if ent is not None:
            self.cancel(ent)
        return not me.timed_out

    def yield_(self, what=""):
        """A point at which others may run first."""
        self._schedule(self.current)

    def sleep(self, d):
        if d <= 0:
            self.yield_("sleep0")
        else:
            self.block(d, "sleep")

    # ---------------------------------------------------------------- scheduler
    def _schedule(self, me):
        k = self.knobs
        self.steps += 1
        self.now += k["step_cost"]
        if self.steps > k["max_steps"]:
            self._stuck("livelock: %d scheduling steps without finishing" % self.steps)
        first = True
        while True:
            timers = self.timers
            while timers and (timers[0][2] is None or timers[0][0] <= self.now):
                ent = heapq.heappop(timers)
                if ent[2] is not None:
                    ent[2](*ent[3])
            run = [t for t in self.threads if t.state == RUNNABLE]
            if not run:
                if not timers:
                    self._stuck(self._describe_deadlock())
                if timers[0][0] - self.start > k["max_time"]:
                    self._stuck("timeout: simulated time exceeds %ss\n%s" % (k["max_time"], self._describe_deadlock()))
                self.now = max(self.now, timers[0][0])
                self.advances += 1
                continue
            mine = me.state == RUNNABLE
            nother = len(run) - (1 if mine else 0)
            can_adv = 1 if (timers and first and k["advance"]) else 0
            if can_adv and k.get("starve") and timers[0][0] - min(self.now if t is me else t.since for t in run) > k["starve"]:
                can_adv = 0     # this world's properties assume that nobody is starved for longer
            # runnable threads are rarely kept waiting for long, else slow answers would never overtake anything
            adv = k["advance"] * (0.01 if can_adv and timers[0][0] - self.now > 0.2 else 1.0)
            if mine:
                weights = [k["keep"]]
                if nother:
                    w = k["switch"] / nother
                    weights += [w] * nother
                if can_adv:
                    weights.append(adv)
            else:
                weights = [1.0 * k["switch"] / nother] * nother
                if can_adv:
                    weights.append(adv)
            c = self.weighted(weights)
            if mine:
                if c == 0:
                    return
                c -= 1
            if c >= nother:
                # let the next event happen before anybody runs
                self.now = max(self.now, timers[0][0])
                self.advances += 1
                first = self.steps % 3 != 0
                continue
            others = [t for t in run if t is not me]
            target = others[c]
            self.switches += 1
            if mine:
                me.since = self.now
            self.current = target
            target.lock.release()
            if me.state == DONE:
                return
            me.lock.acquire()
            return

    def _describe_deadlock(self):
        parts = []
        for t in self.threads:
            if t.state != DONE:
                parts.append("%s[%s]" % (t.name, t.wait_what if t.state == BLOCKED else "runnable"))
        return "deadlock: nothing can run and nothing is scheduled; threads: " + ", ".join(parts)

    def _stuck(self, why):
        if self.stuck is None:
            self.stuck = why
        if os.environ.get("VF_DEBUG"):
            import faulthandler
            faulthandler.dump_traceback(file=2)
        if self.on_abort is not None:
            self.on_abort(why)
        os._exit(97)


# ------------------------------------------------------------------ line preemption
_line_left = [0]
_line_on = [False]
_prefixes = ()
_TOOL = 4


def configure_line_hook(prefixes):
    """Preempt at line boundaries of code whose file starts with one of the prefixes."""
    global _prefixes
    _prefixes = tuple(prefixes)


def _on_line(code, line):
    fn = code.co_filename
    if not fn.startswith(_prefixes):
        return sys.monitoring.DISABLE
    sim = SIM
    if sim is None or sim.driver_done or _line_on[0]:
        return None
    n = _line_left[0] - 1
    if n > 0:
        _line_left[0] = n
        return None
    _line_on[0] = True
    try:
        _line_left[0] = _next_gap(sim)
    finally:
        _line_on[0] = False
    sim.preemptions += 1
    sim.yield_("line")
    return None


GAPS = (1 << 30, 1, 2, 3, 5, 8, 13, 25, 50, 100)


def _next_gap(sim):
    m = sim.knobs["preempt"]
    g = GAPS[1 + sim.choose(len(GAPS) - 1)] if (not sim.replay or sim.cpos < len(sim.choices)) else GAPS[0]
    if g >= 1 << 30:
        return g
    return max(1, (g * m) // 10)


def enable_line_hook(sim):
    if not sim.knobs["preempt"]:
        return
    _line_left[0] = _next_gap(sim)
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "vf")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.set_events(_TOOL, mon.events.LINE)


def disable_line_hook():
    try:
        sys.monitoring.set_events(_TOOL, 0)
        sys.monitoring.free_tool_id(_TOOL)
    except ValueError:
        pass


def install_line_hook():
    # sys.monitoring is process-wide: nothing to do per thread.
    return None

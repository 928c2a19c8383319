"""The scripted `pulumi` command line: argument parsing as the real one does it, a small stateful
backend, and plans that decide what each invocation writes, how slowly, and how it ends."""
import json
import os

from pulumi.runtime.proto import language_pb2, plugin_pb2

from . import engine as engmod
from . import net as netmod
from . import proc as procmod
from . import wire

B, S, I, M = "bool", "string", "int", "many"
GLOBAL = {"non-interactive": B, "color": S, "logflow": B, "verbose": I, "logtostderr": B, "tracing": S, "stack": S, "cwd": S, "emoji": B,
          "config-file": S}
UPD = {"message": S, "expect-no-changes": B, "diff": B, "target": M, "target-dependents": B, "parallel": I, "client": S, "exec-kind": S,
       "event-log": S, "yes": B, "skip-preview": B, "debug": B}
COMMANDS = {
    ("version",): {}, ("whoami",): {"verbose": B, "json": B}, ("cancel",): {"yes": B},
    ("stack", "init"): {"secrets-provider": S, "no-select": B, "copy-config-from": S}, ("stack", "select"): {"create": B},
    ("stack", "rm"): {"yes": B, "force": B, "preserve-config": B},
    ("stack", "ls"): {"json": B, "all": B}, ("stack", "export"): {"show-secrets": B, "file": S, "version": S}, ("stack", "import"): {"file": S, "force": B},
    ("stack", "output"): {"json": B, "show-secrets": B}, ("stack", "history"): {"json": B, "show-secrets": B, "page-size": I, "page": I, "full-dates": B},
    ("config",): {"show-secrets": B, "json": B}, ("config", "get"): {"json": B, "path": B}, ("config", "set"): {"secret": B, "plaintext": B, "path": B},
    ("config", "set-all"): {"secret": M, "plaintext": M, "path": B}, ("config", "rm"): {"path": B}, ("config", "rm-all"): {"path": B},
    ("config", "refresh"): {"force": B},
    ("plugin", "install"): {"exact": B, "file": S, "reinstall": B, "server": S}, ("plugin", "rm"): {"yes": B, "all": B}, ("plugin", "ls"): {"json": B, "project": B},
    ("up",): dict(UPD, **{"replace": M, "target-replace": M, "policy-pack": M, "policy-pack-config": M, "plan": S, "json": B}),
    ("preview",): dict(UPD, **{"replace": M, "target-replace": M, "policy-pack": M, "policy-pack-config": M, "save-plan": S, "json": B}),
    ("refresh",): dict(UPD, **{"json": B}), ("destroy",): dict(UPD, **{"json": B}),
}
SHORT = {"s": "stack", "y": "yes", "j": "json", "m": "message", "t": "target", "p": "parallel", "d": "debug", "v": "verbose", "f": "force"}


class Usage(Exception):
    pass


def parse(argv):
    """(command path, positionals, flags, order of secret/plaintext entries), as the real CLI would read them."""
    args = list(argv)
    path, pos, flags, order = (), [], {}, []
    # the command is found first: the leading words that name one
    words = []
    for a in args:
        if a.startswith("-"):
            break
        words.append(a)
    for n in (2, 1):
        if tuple(words[:n]) in COMMANDS:
            path = tuple(words[:n])
            break
    if not path:
        raise Usage("unknown command %r" % (args[:2],))
    table = dict(GLOBAL)
    table.update(COMMANDS[path])
    args = args[len(path):]
    i, only = 0, False
    while i < len(args):
        a = args[i]
        i += 1
        if only or not a.startswith("-") or a == "-":
            pos.append(a)
            continue
        if a == "--":
            only = True
            continue
        if a.startswith("--"):
            name, eq, val = a[2:].partition("=")
        else:
            name, eq, val = SHORT.get(a[1:2], "?" + a), "", ""
            if len(a) > 2:
                eq, val = "=", a[2:].lstrip("=")
        t = table.get(name)
        if t is None:
            raise Usage("unknown flag: %s" % a)
        if t == B:
            flags[name] = val in ("1", "true") if eq else True
            continue
        if not eq:
            if i >= len(args):
                raise Usage("flag needs an argument: %s" % a)
            val = args[i]
            i += 1
        if t == I:
            try:
                val = int(val)
            except ValueError:
                raise Usage("invalid argument %r for %s" % (val, a))
        if t == M:
            flags.setdefault(name, []).append(val)
            order.append((name, val))
        else:
            flags[name] = val
    return path, pos, {k: v for k, v in flags.items() if v is not False}, order


def stamp(t):
    import datetime
    return datetime.datetime.fromtimestamp(1_600_000_000 + t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (int(t * 1000) % 1000)


def gojson(v):
    return json.dumps(v, ensure_ascii=False, separators=(",", ":")).replace("\u2028", "\\u2028").replace("\u2029", "\\u2029")


def plain(v):
    """(plaintext, masked) of a wire value."""
    if isinstance(v, dict):
        s = v.get(wire.SIG)
        if s == wire.SECRET:
            return plain(v.get("value"))[0], "[secret]"
        if s == wire.RESREF:
            x = v.get("id") or v.get("urn")
            return x, x
        if s == wire.OUTVAL:
            x = plain(v.get("value"))
            return x if not v.get("secret") else (x[0], "[secret]")
        if s:
            return {"kind": "asset"}, {"kind": "asset"}
        a = {k: plain(x) for k, x in v.items()}
        return {k: x[0] for k, x in a.items()}, {k: x[1] for k, x in a.items()}
    if isinstance(v, list):
        a = [plain(x) for x in v]
        return [x[0] for x in a], [x[1] for x in a]
    if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return v, v


class Stack:
    def __init__(self, name):
        self.name = name
        self.config = {}
        self.outputs = {}
        self.history = []
        self.deployment = {"version": 3, "deployment": {"manifest": {"time": "t0"}, "resources": []}}
        self.updating = None
        self.cancel = False


class Backend:
    """What the Pulumi service and the plugin cache remember."""

    def __init__(self, world):
        self.w = world
        self.stacks = {}
        self.current = {}
        self.plugins = [{"name": "aws", "kind": "resource", "version": "5.1.0", "size": 123456, "installTime": "2022-01-01T00:00:00.000Z",
                         "lastUsedTime": "2022-02-03T04:05:06.789Z"}]
        self.runs = 0


class Exit(Exception):
    def __init__(self, code, err=""):
        self.code, self.err = code, err


class Invocation:
    """One run of the command line."""

    def __init__(self, world, proc):
        self.w, self.p, self.sim, self.be = world, proc, proc.sim, world.backend

    def out(self, s):
        self.p.torn(self.p.out, s.encode())

    def err(self, s):
        self.p.torn(self.p.err, s.encode())

    def run(self):
        rec = self.rec = self.w.invoked(self)
        code = None
        try:
            self.p.pause((0.001, 0.0, 0.01, 0.1, 1.0)[self.sim.choose(5)])
            try:
                path, pos, flags, order = parse(self.p.argv[1:])
            except Usage as e:
                rec["usage"] = str(e)
                self.err("error: %s\n" % e)
                raise Exit(1)
            rec.update(path=" ".join(path), pos=pos, flags=flags, order=order)
            plan = self.plan = self.w.plan_for(rec)
            for st in plan.get("before", ()):
                self.step(st)
            if plan.get("fail"):
                self.fail(plan["fail"])
            getattr(self, "do_" + "_".join(path).replace("-", "_"))(pos, flags)
            code = 0
        except Exit as e:
            if e.err:
                try:
                    self.err(e.err)
                except procmod.Killed as k:
                    code = -k.sig
            code = e.code if code is None else code
        except procmod.Killed as k:
            code = -k.sig
            self.sim.fault("cli_killed" if k.sig == 9 else "cli_sigpipe")
            raise
        finally:
            rec.update(code=code, out=self.p.sent["out"].decode(errors="replace"), err=self.p.sent["err"].decode(errors="replace"), done=True)
            self.w.finished(rec)
        return code

    def fail(self, f):
        self.sim.fault("cli_" + f["kind"])
        self.rec["planned"] = f["kind"]
        for s in f.get("out", ()):
            self.out(s)
        if f.get("err"):
            self.err(f["err"])
        if f["kind"] == "killed":
            self.p.kill(9)
            self.p.check()
        raise Exit(f.get("code", 255))

    def step(self, st):
        k = st[0]
        if k == "out":
            self.out(st[1])
        elif k == "err":
            self.err(st[1])
        elif k == "wait":
            self.p.pause(st[1])
        elif k == "ev":
            self.event(st[1])
        elif k == "die":
            self.p.kill(st[1])
            self.p.check()
        elif k == "tear":
            self.tear(st[1], st[2])

    # ------------------------------------------------------------ the event log
    def event(self, ev):
        fd = self.logfd
        if fd is None:
            return
        ev = dict(ev, sequence=self.nev, timestamp=1_600_000_000 + self.nev)
        self.nev += 1
        data = (gojson(ev) + "\n").encode()
        self.rec["events"].append(ev)
        self.rec["partial"] = True
        self.p.torn(fd, data, whole=False)
        self.rec["partial"] = False

    def tear(self, ev, frac):
        """The CLI dies in the middle of writing an event."""
        if self.logfd is not None:
            data = gojson(dict(ev, sequence=self.nev, timestamp=1)).encode()
            self.p.write(self.logfd, data[: max(1, min(len(data) - 1, int(len(data) * frac)))])
            self.sim.fault("torn_event")
        self.p.kill(9)
        self.p.check()

    # ------------------------------------------------------------ commands
    def stack(self, flags):
        name = flags.get("stack") or self.be.current.get(self.p.cwd)
        if name is None:
            raise Exit(255, "error: no stack selected\n")
        s = self.be.stacks.get(name)
        if s is None:
            raise Exit(255, "error: no stack named '%s' found\n" % name)
        return s

    def json(self, v, indent=True):
        self.out(json.dumps(v, indent=2, ensure_ascii=False) + "\n" if indent else gojson(v) + "\n")

    def need_pos(self, pos, lo, hi):
        if not lo <= len(pos) <= hi:
            self.rec["usage"] = "accepts between %d and %d arg(s), received %d: %r" % (lo, hi, len(pos), pos)
            raise Exit(1, "error: %s\n" % self.rec["usage"])

    def do_version(self, pos, flags):
        self.out(self.w.wl.get("version", "v3.33.2") + "\n")

    def do_whoami(self, pos, flags):
        self.out(self.w.wl.get("user", "someone") + "\n")

    def do_stack_init(self, pos, flags):
        self.need_pos(pos, 0, 1)
        n = pos[0] if pos else flags.get("stack")
        if n in self.be.stacks:
            raise Exit(255, "error: stack '%s' already exists\n" % n)
        self.be.stacks[n] = Stack(n)
        self.be.stacks[n].secrets_provider = flags.get("secrets-provider")
        self.be.current[self.p.cwd] = n
        self.out("Created stack '%s'\n" % n)

    def do_stack_select(self, pos, flags):
        self.need_pos(pos, 0, 1)
        n = pos[0] if pos else flags.get("stack")
        if n not in self.be.stacks:
            raise Exit(255, "error: no stack named '%s' found\n" % n)
        self.be.current[self.p.cwd] = n

    def do_stack_rm(self, pos, flags):
        self.need_pos(pos, 0, 1)
        n = pos[0] if pos else flags.get("stack")
        if n not in self.be.stacks:
            raise Exit(255, "error: no stack named '%s' found\n" % n)
        if not flags.get("yes"):
            raise Exit(255, "error: --yes must be passed in non-interactive mode\n")
        del self.be.stacks[n]
        self.out("Stack '%s' has been removed!\n" % n)

    def do_stack_ls(self, pos, flags):
        if not flags.get("json"):
            self.out("NAME  LAST UPDATE\n")
            return
        res = []
        for n, s in sorted(self.be.stacks.items()):
            d = {"name": n, "current": self.be.current.get(self.p.cwd) == n, "updateInProgress": s.updating is not None}
            if s.history:
                d["lastUpdate"] = s.history[0]["endTime"]
                d["resourceCount"] = len(s.history) - 1
                d["url"] = "https://app/" + n
            res.append(d)
        self.json(res)

    def do_stack_export(self, pos, flags):
        s = self.stack(flags)
        self.json(s.deployment)

    def do_stack_import(self, pos, flags):
        s = self.stack(flags)
        try:
            with open(os.path.join(self.p.cwd, flags["file"]), encoding="utf-8") as f:
                s.deployment = json.load(f)
        except Exception as e:  # noqa
            raise Exit(255, "error: could not read deployment: %s\n" % type(e).__name__)
        self.rec["imported"] = s.deployment
        self.out("Import complete.\n")

    def do_stack_output(self, pos, flags):
        s = self.stack(flags)
        self.need_pos(pos, 0, 1)
        self.json({k: plain(v)[0 if flags.get("show-secrets") else 1] for k, v in s.outputs.items()})

    def do_stack_history(self, pos, flags):
        s = self.stack(flags)
        h = s.history
        if flags.get("page-size"):
            n, p = flags["page-size"], flags.get("page", 1)
            h = h[n * (p - 1):n * p]
        res = []
        for e in h:
            e = dict(e, config={k: dict(c, value="[secret]" if c["secret"] and not flags.get("show-secrets") else c["value"])
                                for k, c in e["config"].items()})
            res.append(e)
        self.json(res)

    def do_config(self, pos, flags):
        s = self.stack(flags)
        self.json({k: {"value": v, "secret": sec} if not sec or flags.get("show-secrets") else {"secret": True} for k, (v, sec) in s.config.items()})

    def do_config_get(self, pos, flags):
        self.need_pos(pos, 1, 1)
        s = self.stack(flags)
        if pos[0] not in s.config:
            raise Exit(255, "error: configuration key '%s' not found for stack '%s'\n" % (pos[0], s.name))
        v, sec = s.config[pos[0]]
        self.json({"value": v, "secret": sec}) if flags.get("json") else self.out(v + "\n")

    def do_config_set(self, pos, flags):
        self.need_pos(pos, 2, 2)
        s = self.stack(flags)
        s.config[pos[0]] = (pos[1], bool(flags.get("secret")))

    def do_config_set_all(self, pos, flags):
        self.need_pos(pos, 0, 0)
        s = self.stack(flags)
        for kind, kv in self.rec["order"]:
            k, eq, v = kv.partition("=")
            if not eq:
                raise Exit(255, "error: config value not in the form [key]=[value]\n")
            s.config[k] = (v, kind == "secret")

    def do_config_rm(self, pos, flags):
        self.need_pos(pos, 1, 1)
        self.stack(flags).config.pop(pos[0], None)

    def do_config_rm_all(self, pos, flags):
        s = self.stack(flags)
        for k in pos:
            s.config.pop(k, None)

    def do_config_refresh(self, pos, flags):
        s = self.stack(flags)
        if not s.history:
            raise Exit(255, "error: no previous deployment\n")
        s.config = {k: (c["value"], c["secret"]) for k, c in s.history[0]["config"].items()}
        self.out("refreshed configuration for stack '%s'\n" % s.name)

    def do_plugin_install(self, pos, flags):
        self.need_pos(pos, 0, 3)
        self.be.plugins.append({"name": pos[1], "kind": pos[0], "version": pos[2].lstrip("v"), "size": 10, "lastUsedTime": "2022-02-03T04:05:06.000Z"})

    def do_plugin_rm(self, pos, flags):
        self.need_pos(pos, 0, 3)
        self.be.plugins = [p for p in self.be.plugins if not (p["kind"] == pos[0] and (len(pos) < 2 or p["name"] == pos[1]))]

    def do_plugin_ls(self, pos, flags):
        self.json(self.be.plugins)

    def do_cancel(self, pos, flags):
        s = self.stack(flags)
        if not flags.get("yes"):
            raise Exit(255, "error: --yes must be passed in non-interactive mode\n")
        if s.updating is None:
            raise Exit(255, "error: [400] Bad Request: the update has already been completed\n")
        s.cancel = True
        self.sim.fault("update_cancelled")
        self.err("The currently running update for '%s' has been canceled!\n" % s.name)

    # ------------------------------------------------------------ updates
    def do_up(self, pos, flags):
        self.update("update", flags)

    def do_preview(self, pos, flags):
        self.update("preview", flags)

    def do_refresh(self, pos, flags):
        self.update("refresh", flags)

    def do_destroy(self, pos, flags):
        self.update("destroy", flags)

    def update(self, kind, flags):
        self.rec["events"], self.nev = [], 0
        self.logfd = None
        s = self.stack(flags)
        if kind != "preview" and not flags.get("yes"):
            raise Exit(255, "error: --yes must be passed in non-interactive mode\n")
        if kind != "preview" and s.updating is not None:
            self.sim.fault("cli_conflict")
            raise Exit(255, "error: [409] Conflict: Another update is currently in progress.\n")
        if kind != "preview":
            s.updating, s.cancel = self, False
        start = self.sim.now
        bad = None
        try:
            if flags.get("event-log"):
                self.logfd = os.open(os.path.join(self.p.cwd, flags["event-log"]), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            outputs = None
            for st in self.plan.get("steps", ()):
                if s.cancel:
                    bad = "error: update canceled\n"
                    break
                if st[0] == "run":
                    if flags.get("client"):
                        bad, outputs = self.program(s, kind, flags, st[1])
                        if bad:
                            break
                    continue
                self.step(st)
            for st in self.plan.get("last", ()) if bad is None else ():
                self.step(st)
            code = self.plan.get("code", 0) if bad is None else 255
            if kind != "preview":
                res = "succeeded" if code == 0 else "failed"
                if code == 0 and outputs is not None:
                    s.outputs = outputs
                elif code == 0 and kind == "update" and not flags.get("client"):
                    s.outputs = self.plan.get("outputs") or {}
                v = len(s.history) + 1
                h = {"kind": kind, "startTime": stamp(start), "message": flags.get("message", ""), "environment": {"exec.kind": flags.get("exec-kind", "")},
                     "config": {k: {"value": c[0], "secret": c[1]} for k, c in s.config.items()}, "result": res, "endTime": stamp(self.sim.now)}
                if kind == "update" or v % 2:
                    h["version"] = v - 1
                    h["resourceChanges"] = {"create": v, "same": 0} if v % 3 else {}
                    if v % 2:
                        h["Deployment"] = json.dumps({"resources": [], "n": v})
                s.history.insert(0, h)
            if code:
                if self.plan.get("failtext"):
                    self.out(self.plan["failtext"])
                raise Exit(code, bad or self.plan.get("failerr") or "")
            if bad is None and self.plan.get("post"):
                self.out(self.plan["post"])
        finally:
            if s.updating is self:
                s.updating = None
            if self.logfd is not None:
                os.close(self.logfd)
                self.logfd = None

    def rpc(self, addr, method, req, kind):
        c = netmod.NET.start(addr, "/pulumirpc.LanguageRuntime/" + method, req.SerializeToString())
        while not c.done:
            c.waiter = self.p.thread
            self.sim.block(None, "cli waits for " + method)
            self.p.check()
        if c.error is not None:
            return None, c.error
        return kind.FromString(c.reply), None

    def program(self, s, kind, flags, plan):
        """The program is served by the automation client; this process is its engine."""
        run = self.w.run_for(self.rec)
        addr = flags["client"]
        if run is None:
            return None, None
        self.be.runs += 1
        n = self.be.runs
        wl = run["wl"]
        eng = engmod.Engine(self.sim, netmod.NET, wl, addr="127.0.0.1:%d" % (20000 + 2 * n), eng_addr="127.0.0.1:%d" % (20001 + 2 * n), tag="e%d" % n)
        die = eng.die

        def dies():
            die()
            self.p.kill(9)

        eng.die = dies
        att = {"eng": eng, "ok": None, "detail": "", "rts": [], "killed": False}
        run["attempts"].append(att)
        try:
            if plan.get("kill_after") is not None:
                self.sim.at(plan["kill_after"], dies)
            for m, rq, ty in (("GetPluginInfo", language_pb2.RunRequest(), plugin_pb2.PluginInfo),
                              ("GetRequiredPlugins", language_pb2.GetRequiredPluginsRequest(), language_pb2.GetRequiredPluginsResponse)):
                r, e = self.rpc(addr, m, rq, ty)
                if e is not None:
                    att["ok"], att["detail"] = False, "%s failed: %s" % (m, e)
                    return "error: failed to reach the language host: %s\n" % e, None
            req = language_pb2.RunRequest(project=wl["project"], stack=wl["stack"], monitor_address=eng.addr, args=[eng.eng_addr],
                                          dryRun=kind == "preview", parallel=flags.get("parallel", 4), organization=wl.get("org", "org"),
                                          config=wl.get("config") or {}, configSecretKeys=wl.get("config_secret_keys") or [])
            r, e = self.rpc(addr, "Run", req, language_pb2.RunResponse)
            if e is not None:
                att["ok"], att["detail"] = False, "Run failed: %s" % e
                return "error: %s\n" % e, None
            att["ok"], att["detail"] = not r.error, r.error
            if r.error:
                self.out("Diagnostics:\n  error: %s\n" % r.error)
                return "error: update failed\n", None
            outs = {}
            for u, d in eng.outputs:
                if "pulumi:pulumi:Stack" in u:
                    outs = d
            return None, outs
        except procmod.Killed:
            att["killed"] = True
            if not eng.dead:
                die()
            raise
        finally:
            att["over"] = self.sim.now


def main(world):
    return lambda proc: Invocation(world, proc).run()

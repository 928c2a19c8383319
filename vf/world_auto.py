"""World: programs that drive the command line through pulumi.automation.  Several client threads
own stacks; the `pulumi` child processes, their backend and their engines are scripted; inline
programs are served by the real language server over the simulated network."""
import builtins
import enum
import errno
import json
import os
import re
import tempfile
import threading

import grpc
import yaml

import pulumi
from pulumi import automation as auto
from pulumi.automation import _project_settings as ps
from pulumi.automation import _stack_settings as ss

from . import cli as climod
from . import interp
from . import kernel
from . import net as netmod
from . import proc as procmod
from . import seams
from .world_prog import Outcome, interpreter_exit, tune_net

SCRATCH = True
SKIP_FLAGS = ("non-interactive", "event-log", "client")


class Callback(Exception):
    """Raised by the simulated user's callbacks."""


# ---------------------------------------------------------------- what operations return, as plain data
def when(d):
    return None if d is None else d.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (d.microsecond // 1000)


def canon_config(c):
    return {k: [v.value, bool(v.secret)] for k, v in c.items()}


def canon_summary(s):
    if s is None:
        return None
    return {"kind": s.kind, "start": when(s.start_time), "end": when(s.end_time), "message": s.message, "environment": dict(s.environment),
            "result": s.result, "version": s.version, "changes": s.resource_changes, "deployment": s.Deployment,
            "config": canon_config(s.config)}


def canon_outputs(o):
    return {k: [v.value, v.secret] for k, v in o.items()}


def lines(s):
    """Output as lines; spaces at their ends and blank lines at the end do not count."""
    ls = [x.rstrip() for x in s.split("\n")]
    while ls and not ls[-1]:
        ls.pop()
    return ls


def snake(k):
    return {"PolicyPacks": "policy_packs", "streamID": "stream_id"}.get(k) or re.sub(r"([A-Z])", lambda m: "_" + m.group(1).lower(), k)


def same(js, ob, path=""):
    """Does the event object say what the JSON said? Returns None or a description."""
    if isinstance(js, dict):
        if isinstance(ob, dict):
            if set(js) != set(ob):
                return "%s has keys %s, the event said %s" % (path, sorted(ob), sorted(js))
            for k in js:
                r = same(js[k], ob[k], path + "." + k)
                if r:
                    return r
            return None
        if ob is None:
            return "%s is missing" % path
        for k, v in js.items():
            n = snake(k)
            if not hasattr(ob, n):
                return "%s has no %s" % (path, n)
            r = same(v, getattr(ob, n), path + "." + n)
            if r:
                return r
        return None
    if isinstance(js, list):
        if not isinstance(ob, (list, tuple)) or len(ob) != len(js):
            return "%s is %r, the event said %r" % (path, ob, js)
        for i, (a, b) in enumerate(zip(js, ob)):
            r = same(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(ob, enum.Enum):
        ob = ob.value
    return None if js == ob and isinstance(js, bool) == isinstance(ob, bool) else "%s is %r, the event said %r" % (path, ob, js)


EVENTS = ("cancelEvent", "stdoutEvent", "diagnosticEvent", "preludeEvent", "summaryEvent", "resourcePreEvent", "resOutputsEvent", "resOpFailedEvent",
          "policyEvent")


def same_event(js, ob):
    if not isinstance(ob, auto.EngineEvent):
        return "a %s was delivered" % type(ob).__name__
    if getattr(ob, "sequence", None) != js["sequence"] or getattr(ob, "timestamp", None) != js["timestamp"]:
        return "event %s arrived where %s was due" % (getattr(ob, "sequence", None), js["sequence"])
    for k in EVENTS:
        v = getattr(ob, snake(k), None)
        if k not in js:
            if v is not None:
                return "event %d also has %s" % (js["sequence"], snake(k))
        elif v is None:
            return "event %d has no %s" % (js["sequence"], snake(k))
        else:
            r = same(js[k], v, "event %d: %s" % (js["sequence"], snake(k)))
            if r:
                return r
    return None


# ---------------------------------------------------------------- the world
class World:
    def __init__(self, sim, wl, scratch):
        self.sim, self.wl, self.scratch = sim, wl, scratch
        self.tmp = os.path.join(scratch, "tmp")
        os.mkdir(self.tmp)
        self.backend = climod.Backend(self)
        self.cli = []             # every invocation of the command line
        self.clients = {}
        self.bad_ = []
        self.made = []            # (path, thread) of files and directories created
        self.faulting = {}        # sim thread -> {"kind": n}
        self.workdirs = set()

    def bad(self, klass, msg):
        self.bad_.append((klass, msg))

    # ---------------------------------------------------------------- the command line's questions
    def invoked(self, inv):
        c = self.clients.get(inv.p.env.get("VF_CLIENT"))
        rec = {"inv": inv, "argv": inv.p.argv, "cwd": inv.p.cwd, "env": inv.p.env, "client": c, "op": c.now if c else None, "t0": self.sim.now,
               "code": None, "events": None, "done": False, "path": "", "pos": [], "flags": {}, "order": []}
        self.cli.append(rec)
        if c is not None and c.now is not None:
            c.now["cli"].append(rec)
        return rec

    def plan_for(self, rec):
        op = rec["op"]
        key = rec["path"]
        if key == "stack output" and rec["flags"].get("show-secrets"):
            key = "stack output show"
        rec["key"] = key
        self.sim.log("cli", rec["client"].name if rec["client"] else "?", key)
        if op is None:
            return {}
        n = sum(1 for r in op["cli"] if r.get("key") == key)
        return (op["op"].get("plans") or {}).get(key if n == 1 else "%s#%d" % (key, n)) or {}

    def finished(self, rec):
        self.sim.log("cli-exit", rec["client"].name if rec["client"] else "?", rec["path"], rec["code"])

    def run_for(self, rec):
        return rec["op"]["run"] if rec["op"] is not None else None


class Client:
    def __init__(self, world, spec):
        self.w, self.spec, self.name = world, spec, spec["name"]
        self.now = None
        self.recs = []
        self.ws = self.stack = None
        self.dir = os.path.join(world.scratch, "w-" + self.name)
        os.mkdir(self.dir)
        self.home = os.path.join(world.scratch, "h-" + self.name)
        self.open_op = None

    # ------------------------------------------------------------ running
    def run(self):
        sim = self.w.sim
        if self.spec.get("at"):
            sim.sleep(self.spec["at"])
        for op in self.spec["ops"]:
            if op["k"] != "open" and self.stack is None:
                continue
            if op.get("pause"):
                sim.sleep(op["pause"])
            rec = {"op": op, "cli": [], "events": [], "lines": [], "result": None, "exc": None, "run": None, "returned": False, "late": None,
                   "hooked": [], "settings": dict(self.settings) if self.stack is not None else None}
            if op.get("run"):
                rec["run"] = {"wl": op["run"], "rts": [], "attempts": []}
            self.recs.append(rec)
            self.now = rec
            made0 = len(self.w.made)
            nserv = len(netmod.SimServer.instances)
            self.w.faulting[sim.current] = dict(op.get("sys") or {})
            sim.log("op", self.name, op["k"])
            try:
                rec["result"] = getattr(self, "op_" + op["k"])(op, rec)
            except Exception as e:  # noqa
                rec["exc"] = e
                rec["result"] = None
                if seams.DEBUG:
                    import traceback
                    traceback.print_exc()
            rec["sysleft"] = self.w.faulting.pop(sim.current)
            if self.stack is not None:
                want = dict(self.settings.get("env") or {}, VF_CLIENT=self.name)
                if dict(self.ws.env_vars) != want:
                    self.w.bad("cmd.env", "%s %s: the workspace's environment has become %r, it was opened with %r" % (self.name, op["k"], dict(self.ws.env_vars), want))
            rec["returned"] = True
            rec["nevents"] = len(rec["events"])
            rec["nlines"] = len(rec["lines"])
            sim.log("op-done", self.name, op["k"], type(rec["exc"]).__name__ if rec["exc"] else "ok")
            # nothing this operation set up outlives it
            for path, th in self.w.made[made0:]:
                if th is sim.current and os.path.exists(path) and not self.mine(path):
                    self.w.bad("left.file", "%s %s left %s behind" % (self.name, op["k"], self.short(path)))
            for s in netmod.SimServer.instances[nserv:]:
                if s.owner is sim.current and s.running:
                    self.w.bad("left.server", "%s %s left its language server running" % (self.name, op["k"]))
            for r in rec["cli"]:
                if not r["done"]:
                    self.w.bad("left.process", "%s %s returned while its `pulumi %s` was still running" % (self.name, op["k"], r["path"]))
        self.now = None

    def mine(self, path):
        """The client's own directory, or a workspace's, which stays."""
        if path.startswith(self.dir):
            return True
        top = os.path.relpath(path, self.w.tmp).split(os.sep)[0]
        return top.startswith("automation-") and not top.startswith("automation-logs-")

    def short(self, path):
        return os.path.relpath(path, self.w.scratch)

    # ------------------------------------------------------------ callbacks
    def on_event(self, op, rec):
        mode = op.get("events")
        if not mode:
            return None
        sim = self.w.sim

        def cb(ev):
            if rec["returned"] and rec["late"] is None:
                rec["late"] = len(rec["events"])
            if mode.startswith("slow"):
                sim.sleep(float(mode[4:]))
            rec["events"].append(ev)
            sim.log("event", self.name, getattr(ev, "sequence", None))
            if mode.startswith("raise") and len(rec["events"]) == int(mode[5:]):
                sim.fault("callback_raises")
                raise Callback("event callback")
        return cb

    def on_output(self, op, rec):
        mode = op.get("output")
        if not mode:
            return None

        def cb(s):
            rec["lines"].append(s)
            if mode.startswith("raise") and len(rec["lines"]) == int(mode[5:]):
                self.w.sim.fault("callback_raises")
                raise Callback("output callback")
        return cb

    def program(self, bound=None):
        def program():
            rec = bound if bound is not None else self.now
            run = rec["run"]
            if bound is None and rec["op"].get("prog") == "arg":
                self.w.bad("prog.program", "%s %s: the workspace's program ran, not the one given to the operation" % (self.name, rec["op"]["k"]))
            if run is None:
                raise interp.UserError("program called for an operation without one")
            rt = interp.RT(run["wl"])
            run["rts"].append(rt)
            interp.run_ops(rt, run["wl"]["ops"], {}, None)
        return program

    # ------------------------------------------------------------ operations
    def op_open(self, op, rec):
        o = op["opts"]
        self.settings = o
        env = dict(o.get("env") or {})
        env["VF_CLIENT"] = self.name
        kw = {"env_vars": env}
        if o.get("home"):
            kw["pulumi_home"] = self.home
        if o.get("secrets_provider"):
            kw["secrets_provider"] = o["secrets_provider"]
        if o.get("project_settings"):
            kw["project_settings"] = settings_of(o["project_settings"])
        if o.get("stack_settings"):
            kw["stack_settings"] = {k: stack_settings_of(v) for k, v in o["stack_settings"].items()}
        if o.get("work_dir"):
            kw["work_dir"] = self.dir
        if o.get("pre"):
            with open(os.path.join(self.dir, o["pre"][0]), "w", encoding="utf-8") as f:
                f.write(o["pre"][1])
        opts = auto.LocalWorkspaceOptions(**kw)
        fn = {"create": auto.create_stack, "select": auto.select_stack, "create_or_select": auto.create_or_select_stack}[op["mode"]]
        st = None
        for name, project in (o.get("first") or []) + [(self.spec["stack"], self.spec["project"])]:
            # the same options object may serve several stacks
            if o.get("hooks"):
                w = Hooked(program=self.program() if op["host"] == "inline" else None,
                           **dict(kw, work_dir=kw.get("work_dir") or (None if op["host"] == "inline" else self.dir)))
                w.hooked = self.hooked
                st = getattr(auto.Stack, op["mode"])(name, w)
            elif op["host"] == "inline":
                st = fn(name, project_name=project, program=self.program(), opts=opts)
            else:
                st = fn(name, work_dir=self.dir, opts=opts)
            self.w.workdirs.add(st.workspace.work_dir)
            rec.setdefault("projects", []).append(raw_project(st.workspace.work_dir))
            rec.setdefault("loaded", []).append(canon_project(st.workspace.project_settings()) if rec["projects"][-1] is not None else None)
        self.stack, self.ws = st, st.workspace
        self.open_op = op
        rec["setback"] = {k: [raw_settings(self.ws.work_dir, "Pulumi." + k.split("/")[-1]), canon_stack(self.ws.stack_settings(k))]
                          for k in o.get("stack_settings") or {}}
        try:
            v = self.ws.pulumi_version
        except auto.InvalidVersionError:
            v = "unknown"
        return {"name": st.name, "version": v}

    def hooked(self, stack):
        self.now["hooked"].append(stack)

    def update(self, op, rec, kind, program=True):
        kw = dict(op["kw"])
        if op.get("events"):
            kw["on_event"] = self.on_event(op, rec)
        if op.get("output"):
            kw["on_output"] = self.on_output(op, rec)
        if program and op.get("prog") == "arg":
            kw["program"] = self.program(rec)
        return getattr(self.stack, kind)(**kw)

    def op_up(self, op, rec):
        r = self.update(op, rec, "up")
        return {"stdout": lines(r.stdout), "stderr": r.stderr, "outputs": canon_outputs(r.outputs), "summary": canon_summary(r.summary)}

    def op_preview(self, op, rec):
        r = self.update(op, rec, "preview")
        return {"stdout": lines(r.stdout), "stderr": r.stderr, "changes": r.change_summary}

    def op_refresh(self, op, rec):
        r = self.update(op, rec, "refresh", False)
        return {"stdout": lines(r.stdout), "stderr": r.stderr, "summary": canon_summary(r.summary)}

    def op_destroy(self, op, rec):
        r = self.update(op, rec, "destroy", False)
        return {"stdout": lines(r.stdout), "stderr": r.stderr, "summary": canon_summary(r.summary)}

    def op_config_get(self, op, rec):
        v = self.stack.get_config(op["key"])
        return [v.value, bool(v.secret)]

    def op_config_all(self, op, rec):
        return canon_config(self.stack.get_all_config())

    def op_config_set(self, op, rec):
        return self.stack.set_config(op["key"], auto.ConfigValue(op["value"], op["secret"]))

    def op_config_set_all(self, op, rec):
        return self.stack.set_all_config({k: auto.ConfigValue(v, s) for k, v, s in op["items"]})

    def op_config_rm(self, op, rec):
        return self.stack.remove_config(op["key"])

    def op_config_rm_all(self, op, rec):
        return self.stack.remove_all_config(op["keys"])

    def op_config_refresh(self, op, rec):
        return self.stack.refresh_config()

    def op_outputs(self, op, rec):
        return canon_outputs(self.stack.outputs())

    def op_history(self, op, rec):
        return [canon_summary(s) for s in self.stack.history(**op["kw"])]

    def op_info(self, op, rec):
        return canon_summary(self.stack.info(**op["kw"]))

    def op_cancel(self, op, rec):
        return self.stack.cancel()

    def op_export(self, op, rec):
        d = self.stack.export_stack()
        return {"version": d.version, "deployment": d.deployment}

    def op_import(self, op, rec):
        dep = op["deployment"]
        if op.get("unserialisable"):
            dep = dict(dep, x=object())
        return self.stack.import_stack(auto.Deployment(version=op["version"], deployment=dep))

    def op_whoami(self, op, rec):
        return self.ws.who_am_i().user

    def _stack(self, s):
        return None if s is None else {"name": s.name, "current": s.current, "updating": s.update_in_progress, "last": when(s.last_update),
                                       "count": s.resource_count, "url": s.url}

    def op_stacks(self, op, rec):
        return [self._stack(s) for s in self.ws.list_stacks()]

    def op_current(self, op, rec):
        return self._stack(self.ws.stack())

    def op_stack_rm(self, op, rec):
        return self.ws.remove_stack(op["name"])

    def op_stack_new(self, op, rec):
        return self.ws.create_stack(op["name"])

    def op_stack_select(self, op, rec):
        return self.ws.select_stack(op["name"])

    def op_plugin_install(self, op, rec):
        return self.ws.install_plugin(*op["args"])

    def op_plugin_rm(self, op, rec):
        return self.ws.remove_plugin(**op["kw"])

    def op_plugins(self, op, rec):
        return [{"name": p.name, "kind": p.kind, "size": p.size, "used": when(p.last_used), "installed": when(p.install_time), "version": p.version}
                for p in self.ws.list_plugins()]

    def beside(self, op, stem, old):
        """Somebody left the settings in two formats: what is saved is read back all the same."""
        for e in op["beside"]:
            with open(os.path.join(self.ws.work_dir, "%s.%s" % (stem, e)), "w", encoding="utf-8") as f:
                json.dump(old, f)

    def op_save_project(self, op, rec):
        if op.get("beside"):
            self.beside(op, "Pulumi", {"name": "stale", "runtime": "nodejs"})
            s = settings_of(op["settings"])
            self.ws.save_project_settings(s)
            back = canon_project(self.ws.project_settings())
            for e in op["beside"]:
                os.remove(os.path.join(self.ws.work_dir, "Pulumi." + e))
            self.ws.save_project_settings(s)
            return {"raw": raw_project(self.ws.work_dir), "back": back}
        n0 = self.files("Pulumi")
        self.ws.save_project_settings(settings_of(op["settings"]))
        n1 = self.files("Pulumi")
        if n1 != (n0 or [".yaml"]):
            self.w.bad("settings.value", "%s: saving the project settings over %s left %s" % (self.name, n0, n1))
        return {"raw": raw_project(self.ws.work_dir), "back": canon_project(self.ws.project_settings())}

    def op_save_stack(self, op, rec):
        stem = "Pulumi." + op["name"].split("/")[-1]
        if op.get("beside"):
            self.beside(op, stem, {"config": {"stale:k": "v"}})
            s = stack_settings_of(op["settings"])
            self.ws.save_stack_settings(op["name"], s)
            back = canon_stack(self.ws.stack_settings(op["name"]))
            for e in op["beside"]:
                os.remove(os.path.join(self.ws.work_dir, "%s.%s" % (stem, e)))
            self.ws.save_stack_settings(op["name"], s)
            return {"raw": raw_settings(self.ws.work_dir, stem), "back": back}
        n0 = self.files(stem)
        self.ws.save_stack_settings(op["name"], stack_settings_of(op["settings"]))
        n1 = self.files(stem)
        if n1 != (n0 or [".yaml"]):
            self.w.bad("settings.value", "%s: saving the settings of %s over %s left %s" % (self.name, op["name"], n0, n1))
        return {"raw": raw_settings(self.ws.work_dir, "Pulumi." + op["name"].split("/")[-1]), "back": canon_stack(self.ws.stack_settings(op["name"]))}

    def files(self, stem):
        return [e for e in (".yaml", ".yml", ".json") if os.path.exists(os.path.join(self.ws.work_dir, stem + e))]

    def op_edit_project(self, op, rec):
        """Load a project file somebody wrote, save it again: nothing is lost."""
        for e in self.files("Pulumi"):
            os.remove(os.path.join(self.ws.work_dir, "Pulumi" + e))
        with open(os.path.join(self.ws.work_dir, "Pulumi." + op["ext"]), "w", encoding="utf-8") as f:
            json.dump(op["raw"], f) if op["ext"] == "json" else yaml.safe_dump(op["raw"], f)
        s = self.ws.project_settings()
        back = canon_project(s)
        self.ws.save_project_settings(s)
        return {"back": back, "raw": raw_project(self.ws.work_dir), "files": self.files("Pulumi")}

    def op_edit_stack(self, op, rec):
        """Load settings somebody wrote, save them again: nothing is lost."""
        n = op["name"].split("/")[-1]
        for e in ("yaml", "yml", "json"):
            p = os.path.join(self.ws.work_dir, "Pulumi.%s.%s" % (n, e))
            if os.path.exists(p):
                os.remove(p)
        with open(os.path.join(self.ws.work_dir, "Pulumi.%s.%s" % (n, op["ext"])), "w", encoding="utf-8") as f:
            json.dump(op["raw"], f) if op["ext"] == "json" else yaml.safe_dump(op["raw"], f)
        s = self.ws.stack_settings(op["name"])
        back = canon_stack(s)
        self.ws.save_stack_settings(op["name"], s)
        return {"back": back, "raw": raw_settings(self.ws.work_dir, "Pulumi." + n), "files": self.files("Pulumi." + n)}


class Hooked(auto.LocalWorkspace):
    """A workspace of the user's own kind, which adds arguments to commands and wants to hear of them."""
    hooked = None

    def serialize_args_for_op(self, stack_name):
        return ["--config-file", "hook-" + stack_name]

    def post_command_callback(self, stack_name):
        self.hooked(stack_name)


# ---------------------------------------------------------------- settings
def settings_of(d):
    d = dict(d)
    if isinstance(d.get("runtime"), dict):
        d["runtime"] = ps.ProjectRuntimeInfo(**d["runtime"])
    if d.get("backend"):
        d["backend"] = ps.ProjectBackend(**d["backend"])
    if d.get("template"):
        t = dict(d["template"])
        if t.get("config"):
            t["config"] = {k: ps.ProjectTemplateConfigValue(**v) for k, v in t["config"].items()}
        d["template"] = ps.ProjectTemplate(**t)
    return auto.ProjectSettings(**d)


def attrs(o, names):
    return {n: getattr(o, n) for n in names if getattr(o, n) is not None}


def canon_project(s):
    d = attrs(s, ("name", "runtime", "main", "description", "author", "website", "license", "config", "template", "backend"))
    if isinstance(d.get("runtime"), ps.ProjectRuntimeInfo):
        d["runtime"] = attrs(d["runtime"], ("name", "options"))
    elif isinstance(d.get("runtime"), dict):
        d["runtime"] = {"not a ProjectRuntimeInfo": d["runtime"]}
    if isinstance(d.get("backend"), ps.ProjectBackend):
        d["backend"] = attrs(d["backend"], ("url",))
    elif d.get("backend"):
        d["backend"] = {"not a ProjectBackend": d["backend"]}
    if isinstance(d.get("template"), ps.ProjectTemplate):
        t = attrs(d["template"], ("description", "quickstart", "config", "important"))
        if t.get("config"):
            t["config"] = {k: attrs(v, ("description", "default", "secret")) if isinstance(v, ps.ProjectTemplateConfigValue) else {"not a value": v}
                           for k, v in t["config"].items()}
        d["template"] = t
    elif d.get("template"):
        d["template"] = {"not a ProjectTemplate": d["template"]}
    return tidy(d)


def tidy(d):
    """Template configuration: an absent map is an empty one, and entries are not secret unless they say so."""
    d = json.loads(json.dumps(d, default=repr))
    t = d.get("template")
    if isinstance(t, dict):
        if not t.get("config"):
            t.pop("config", None)
        for v in (t.get("config") or {}).values():
            if isinstance(v, dict) and v.get("secret") is False:
                del v["secret"]
    return d


def stack_settings_of(d):
    d = dict(d)
    if d.get("config") is not None:
        d["config"] = {k: ss.StackSettingsSecureConfigValue(v["secure"]) if isinstance(v, dict) and set(v) == {"secure"} and isinstance(v["secure"], str)
                       else v for k, v in d["config"].items()}
    return auto.StackSettings(**d)


def canon_stack(s):
    d = attrs(s, ("secrets_provider", "encrypted_key", "encryption_salt", "config"))
    if d.get("config") is not None:
        d["config"] = {k: {"secure": v.secure} if isinstance(v, ss.StackSettingsSecureConfigValue) else v for k, v in d["config"].items()}
    return {k: v for k, v in d.items() if v not in ("", {})}


def raw_settings(work_dir, stem):
    for e in (".yaml", ".yml", ".json"):
        p = os.path.join(work_dir, stem + e)
        if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
                try:
                    return json.load(f) if e == ".json" else yaml.safe_load(f)
                except Exception as x:  # noqa
                    return {"unreadable": type(x).__name__}
    return None


def raw_project(work_dir):
    return raw_settings(work_dir, "Pulumi")


# ---------------------------------------------------------------- faults of the operating system
def install_os(world):
    sim = world.sim
    real = {"mkdir": os.mkdir, "open": os.open, "popen": builtins.open, "thread": threading.Thread.start, "bind": netmod.SimServer.add_insecure_port}

    def hit(kind):
        f = world.faulting.get(sim.current)
        if f and f.get(kind):
            f[kind] -= 1
            if f[kind] == 0:
                sim.fault("os_" + kind)
                return True
        return False

    def inside(path):
        try:
            return os.fspath(path).startswith(world.tmp)
        except TypeError:
            return False

    def mkdir(path, *a, **k):
        if inside(path):
            if hit("mkdir"):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            real["mkdir"](path, *a, **k)
            world.made.append((os.fspath(path), sim.current))
            return None
        return real["mkdir"](path, *a, **k)

    def open_(path, flags, *a, **k):
        if inside(path) and flags & (os.O_CREAT | getattr(os, "O_TMPFILE", 0)):
            if hit("open"):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            fd = real["open"](path, flags, *a, **k)
            if flags & os.O_EXCL and not os.path.isdir(path):
                world.made.append((os.fspath(path), sim.current))
            return fd
        return real["open"](path, flags, *a, **k)

    def popen(file, mode="r", *a, **k):
        if not isinstance(file, int) and inside(file) and ("w" in mode or "a" in mode or "x" in mode):
            if hit("open"):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), file)
            if not os.path.exists(file):
                world.made.append((os.fspath(file), sim.current))
        return real["popen"](file, mode, *a, **k)

    def start(self):
        if hit("thread"):
            raise RuntimeError("can't start new thread")
        return real["thread"](self)

    def bind(self, address):
        if hit("bind"):
            raise RuntimeError("Failed to bind to address %s" % address)
        return real["bind"](self, address)

    def spawn(argv):
        if hit("spawn"):
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))

    os.mkdir, os.open, builtins.open = mkdir, open_, popen
    threading.Thread.start = start
    netmod.SimServer.add_insecure_port = bind
    procmod.SPAWN_HOOK[0] = spawn


class Names:
    """The names of temporary files, one sequence per run."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "t%06d" % self.n


def run(sim, wl):
    world = World(sim, wl, wl_scratch[0])
    sim.world = world
    tune_net(netmod.NET, sim, wl)
    sim.knobs["starve"] = 0.3
    procmod.PROGRAMS["pulumi"] = climod.main(world)
    tempfile.tempdir = world.tmp
    tempfile._name_sequence = Names()
    os.environ["TMPDIR"] = world.tmp
    for k, v in (wl.get("environ") or {}).items():
        os.environ[k] = v
    for n, s in (wl.get("existing") or {}).items():
        world.backend.stacks[n] = climod.Stack(n)
    install_os(world)
    ts = []
    for c in wl["clients"]:
        world.clients[c["name"]] = cl = Client(world, c)
        ts.append(threading.Thread(target=cl.run))
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sim.sleep(1.0)
    interpreter_exit(sim)
    sim.log("end")
    return world


wl_scratch = [None]


def execute(sim, wl):
    w = run(sim, wl)
    from .auto_oracle import AOracle
    o = AOracle(w)
    return {"violations": o.run(), "stats": stats(w)}


def on_stuck(sim, wl, why):
    from .auto_oracle import AOracle
    return AOracle(sim.world).run(stuck=why)


def stats(w):
    recs = [r for c in w.clients.values() for r in c.recs]
    return {"ops": len(recs), "failed_ops": sum(1 for r in recs if r["exc"] is not None), "commands": len(w.cli),
            "events": sum(len(r["events"]) for r in recs), "inline_runs": sum(len(r["run"]["attempts"]) for r in recs if r["run"])}


def generate(seed, prof):
    from . import auto_gen
    return auto_gen.generate(seed, prof)


def legal(wl):
    from . import auto_gen
    return auto_gen.legal(wl)


def editable(wl, path):
    from . import auto_gen
    return auto_gen.editable(wl, path)

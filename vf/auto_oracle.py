"""Compares what automation operations did and returned with what the command line was asked and answered."""
import json
import os
import re

from pulumi import automation as auto

from . import world_auto as W
from .oracle import Oracle, short
from .world_prog import Outcome


class CliFailed(Exception):
    def __init__(self, rec):
        self.rec = rec


class Refused(Exception):
    """The SDK is to refuse by itself, with this error."""


def usable(version, skip):
    """What the version of the command line allows: None or the version that is known then."""
    m = re.fullmatch(r"v?(\d+)\.(\d+)\.(\d+)(-[0-9A-Za-z.-]+)?(\+[0-9A-Za-z.-]+)?", version)
    if skip:
        return version.lstrip("v") if m else "unknown"
    if not m or int(m.group(1)) != 3:
        return None
    if (int(m.group(2)), int(m.group(3)), not m.group(4)) < (1, 0, True):
        return None
    return version.lstrip("v")


def cmd(key, pos=(), order=None, **flags):
    return {"key": key, "pos": list(pos), "flags": {k.replace("_", "-"): v for k, v in flags.items() if v not in (None, False, [], "")}, "order": order}


def js(rec):
    return json.loads(rec["out"])


def classify(rec):
    """The error class this outcome must raise, by the documented texts."""
    out, err = rec["out"], rec["err"]
    if "no stack named" in err and "found" in err:
        return "StackNotFoundError"
    if "error: stack" in err and "already exists" in err:
        return "StackAlreadyExistsError"
    if "[409] Conflict: Another update is currently in progress." in err:
        return "ConcurrentUpdateError"
    if any(t in out for t in ("Build FAILED.", "Unable to compile TypeScript", ": syntax error:", ": undefined:")):
        return "CompilationError"
    if "python inline source runtime error" in out:
        return "InlineSourceRuntimeError"
    if any(t in out for t in ("failed with an unhandled exception", "panic: runtime error", "an unhandled error occurred:")):
        return "RuntimeError"
    return "CommandError"


def summary(d):
    return {"kind": d["kind"], "start": d["startTime"], "end": d["endTime"], "message": d["message"], "environment": d["environment"],
            "result": d["result"], "version": d.get("version"), "changes": d.get("resourceChanges"), "deployment": d.get("Deployment"),
            "config": {k: [c["value"], c["secret"]] for k, c in d["config"].items()}}


def outputs(masked, shown):
    m, s = js(masked), js(shown)
    return {k: [v, m[k] == "[secret]"] for k, v in s.items()}


class AOracle:
    def __init__(self, w):
        self.w = w
        self.v = []

    def bad(self, klass, msg):
        self.v.append((klass, msg))

    def run(self, stuck=None):
        self.stuck = stuck
        if stuck is not None:
            self.bad("stuck", stuck)
        self.v += self.w.bad_
        for r in self.w.cli:
            self.invocation(r)
        for c in self.w.clients.values():
            for rec in c.recs:
                if stuck is not None and not rec["returned"]:
                    continue
                self.operation(c, rec)
                self.events(c, rec)
                self.runs(c, rec)
        if stuck is None:
            self.leftovers()
        seen, out = set(), []
        for k, m in self.v:
            if (k, m) not in seen:
                seen.add((k, m))
                out.append((k, m))
        return out

    def leftovers(self):
        for n in sorted(os.listdir(self.w.tmp)):
            p = os.path.join(self.w.tmp, n)
            if n.startswith("automation-") and not n.startswith("automation-logs-"):
                continue
            self.bad("left.file", "%s is left in the temporary directory at the end" % (n + (os.sep if os.path.isdir(p) else "")))
        for s in W.netmod.SimServer.instances:
            if s.running:
                self.bad("left.server", "a language server is running at the end")

    # ------------------------------------------------------------ invocations
    def invocation(self, r):
        c = r["client"]
        what = "`pulumi %s`" % " ".join(r["argv"][1:3])
        if c is None or r["op"] is None:
            self.bad("cmd.env", "%s ran without its workspace's environment variables" % what)
            return
        o = (c.open_op or {}).get("opts") or r["op"]["op"].get("opts") or {}
        env = dict(self.w.wl.get("environ") or {})
        env.update(o.get("env") or {})
        for k, v in env.items():
            if k != "PULUMI_HOME" and r["env"].get(k) != v:
                self.bad("cmd.env", "%s of %s: %s is %r in its environment, expected %r" % (what, c.name, k, r["env"].get(k), v))
        home = c.home if o.get("home") else env.get("PULUMI_HOME")
        if r["env"].get("PULUMI_HOME") != home:
            self.bad("cmd.env", "%s of %s: PULUMI_HOME is %r" % (what, c.name, r["env"].get("PULUMI_HOME")))
        dirs = self.w.workdirs if r["op"]["op"]["k"] == "open" else {c.ws.work_dir}
        if os.path.realpath(r["cwd"]) not in {os.path.realpath(d) for d in dirs} and not (r["op"]["op"]["k"] == "open" and r["op"]["exc"] is not None):
            self.bad("cmd.env", "%s of %s ran in %s" % (what, c.name, os.path.relpath(r["cwd"], self.w.scratch)))
        if r.get("usage"):
            self.bad("cmd.args", "%s of %s %s: the command line rejects it: %s" % (what, c.name, r["op"]["op"]["k"], r["usage"]))
        elif r["flags"].get("non-interactive") is not True:
            self.bad("cmd.args", "%s of %s may wait for input for ever (no --non-interactive)" % (what, c.name))

    def matches(self, r, e):
        fl = {k: v for k, v in r["flags"].items() if k not in W.SKIP_FLAGS}
        return r.get("key") == e["key"] and r["pos"] == e["pos"] and fl == e["flags"] and (e["order"] is None or r["order"] == e["order"])

    def drive(self, rec, gen, who):
        """Follow the expected commands. Returns ("ok", result) | ("failed", rec) | ("missing", cmd) | None after a mismatch."""
        recs, pos = rec["cli"], 0
        try:
            group = next(gen)
        except StopIteration as s:
            if recs:
                self.bad("cmd.unexpected", "%s ran `pulumi %s`" % (who, " ".join(recs[0]["argv"][1:4])))
                return None
            return "ok", s.value
        while True:
            got = [None] * len(group)
            failed = None
            while None in got and failed is None and pos < len(recs):
                r = recs[pos]
                pos += 1
                if r.get("usage"):
                    return None
                for i, e in enumerate(group):
                    if got[i] is None and self.matches(r, e):
                        got[i] = r
                        break
                else:
                    left = [e for i, e in enumerate(group) if got[i] is None]
                    near = [e for e in left if e["key"] == r.get("key")] or left
                    fl = {k: v for k, v in r["flags"].items() if k not in W.SKIP_FLAGS}
                    self.bad("cmd.args", "%s ran `pulumi %s` with %r %r %r, expected %s" % (
                        who, r.get("key"), r["pos"], fl, r["order"], "; ".join("`%s` with %r %r %r" % (e["key"], e["pos"], e["flags"], e["order"] or []) for e in near)))
                    return None
                if r["code"] != 0:
                    failed = r
            try:
                if failed is not None:
                    group = gen.throw(CliFailed(failed))
                elif None in got:
                    return "missing", group[got.index(None)]
                else:
                    group = gen.send(got)
            except StopIteration as s:
                res = "ok", s.value
                break
            except CliFailed as f:
                res = "failed", f.rec
                break
            except Refused as f:
                res = "refused", str(f)
                break
        if pos < len(recs):
            self.bad("cmd.unexpected", "%s went on to run `pulumi %s`" % (who, " ".join(recs[pos]["argv"][1:4])))
            return None
        return res

    # ------------------------------------------------------------ operations
    def operation(self, c, rec):
        op = rec["op"]
        who = "%s %s" % (c.name, op["k"])
        exc = rec["exc"]
        fired = [k for k, v in (op.get("sys") or {}).items() if v and not rec["sysleft"].get(k)]
        raised = (op.get("output") or "").startswith("raise") and rec["nlines"] >= int(op["output"][5:])
        res = self.drive(rec, getattr(self, "x_" + op["k"])(c, op, rec), who)
        if res is None:
            return
        if raised:
            if not isinstance(exc, W.Callback):
                self.bad("result.callback", "%s: the output callback raised, the operation %s" % (who, self.did(exc)))
            return
        if fired and (isinstance(exc, OSError) or isinstance(exc, RuntimeError) and ("new thread" in str(exc) or "to bind" in str(exc))):
            return     # the system refused, and the caller was told
        if op.get("unserialisable"):
            if not isinstance(exc, TypeError):
                self.bad("result.error", "%s: state that is not JSON: %s" % (who, self.did(exc)))
            return
        if res[0] == "missing":
            self.bad("cmd.missing", "%s never ran `pulumi %s` (%s)" % (who, res[1]["key"], self.did(exc)))
            return
        if res[0] == "refused":
            if type(exc).__name__ != res[1]:
                self.bad("result.error", "%s: expected %s, it %s" % (who, res[1], self.did(exc)))
            return
        if res[0] == "failed":
            r = res[1]
            want = classify(r)
            if exc is None:
                self.bad("result.false_success", "%s succeeded although `pulumi %s` ended with %s" % (who, r["path"], r["code"]))
            elif type(exc).__name__ != want or not isinstance(exc, auto.CommandError):
                self.bad("result.error", "%s: expected %s, it raised %s" % (who, want, self.did(exc)))
            else:
                s = str(exc)
                if "code: %d\n" % r["code"] not in s + "\n" or r["err"].strip() not in s or any(x not in s for x in W.lines(r["out"])):
                    self.bad("result.error", "%s: the error does not carry what the command reported: %s" % (who, short(s)))
            return
        if exc is not None:
            self.bad("result.false_failure", "%s: nothing failed, it raised %s" % (who, self.did(exc)))
            return
        d = self.differ(res[1], rec["result"])
        if d:
            self.bad("settings.value" if op["k"] in ("save_project", "save_stack", "edit_stack", "edit_project") else "result.value", "%s: %s" % (who, d))
        if op["k"] != "open" and self.hook(c):
            n = sum(1 for r in rec["cli"] if r["path"] in ("up", "preview", "refresh", "destroy", "cancel", "stack history"))
            if rec["hooked"] != [c.spec["stack"]] * n:
                self.bad("result.callback", "%s: %d commands ran for the stack, the workspace heard of %s" % (who, n, rec["hooked"]))
        if op["k"] == "open":
            self.open_files(c, op, rec, who)
        if op.get("output"):
            main = self.main(rec)
            exp, act = W.lines(main["out"]), W.lines("\n".join(rec["lines"]))
            if exp != act:
                self.bad("result.lines", "%s: the output callback got %s, the command wrote %s" % (who, short(act), short(exp)))

    @staticmethod
    def main(rec):
        for r in rec["cli"]:
            if r["path"] in ("up", "preview", "refresh", "destroy"):
                return r
        return None

    @staticmethod
    def did(exc):
        return "%s: %s" % (type(exc).__name__, short(str(exc))) if exc is not None else "returned normally"

    def differ(self, exp, act, path=""):
        if isinstance(exp, dict) and isinstance(act, dict):
            for k in sorted(set(exp) | set(act), key=str):
                if k not in act:
                    return "%s.%s is missing, expected %s" % (path, k, short(exp[k]))
                if k not in exp:
                    return "%s.%s is %s, expected nothing" % (path, k, short(act[k]))
                d = self.differ(exp[k], act[k], path + "." + str(k))
                if d:
                    return d
            return None
        if isinstance(exp, list) and isinstance(act, (list, tuple)) and len(exp) == len(act):
            for i, (e, a) in enumerate(zip(exp, act)):
                d = self.differ(e, a, "%s[%d]" % (path, i))
                if d:
                    return d
            return None
        if exp != act or isinstance(exp, bool) != isinstance(act, bool):
            return "%s is %s, expected %s" % (path or "the result", short(act), short(exp))
        return None

    # ------------------------------------------------------------ what each operation must ask and return
    def x_open(self, c, op, rec):
        o = op["opts"]
        for name, _ in (o.get("first") or []) + [(c.spec["stack"], c.spec["project"])]:
            (v,) = yield [cmd("version")]
            version = usable(v["out"].strip(), any("PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK" in (x or {}) for x in (o.get("env"), self.w.wl.get("environ"))))
            if version is None:
                raise Refused("InvalidVersionError")
            init = cmd("stack init", [name], secrets_provider=o.get("secrets_provider"))
            sel = cmd("stack select", [name])
            if op["mode"] == "create":
                yield [init]
            elif op["mode"] == "select":
                yield [sel]
            else:
                again = False
                try:
                    yield [init]
                except CliFailed as f:
                    if classify(f.rec) != "StackAlreadyExistsError":
                        raise
                    again = True
                if again:
                    yield [sel]
        return {"name": c.spec["stack"], "version": version}

    @staticmethod
    def hook(c):
        return "hook-" + c.spec["stack"] if c.open_op["opts"].get("hooks") else None

    def upd(self, c, op, kind):
        k = op["kw"]
        program = kind in ("up", "preview") and op.get("prog") == "arg" or c.open_op["host"] == "inline"
        f = {"message": k.get("message"), "expect-no-changes": k.get("expect_no_changes"), "diff": k.get("diff"), "replace": k.get("replace"),
             "target": k.get("target"), "policy-pack": k.get("policy_packs"), "policy-pack-config": k.get("policy_pack_configs"),
             "target-dependents": k.get("target_dependents"), "parallel": k.get("parallel"), "color": k.get("color"), "logflow": k.get("log_flow"),
             "verbose": k.get("log_verbosity"), "logtostderr": k.get("log_to_std_err"), "tracing": k.get("tracing"), "debug": k.get("debug"),
             "exec-kind": "auto.inline" if program else "auto.local", "stack": c.spec["stack"], "config-file": self.hook(c),
             "plan" if kind == "up" else "save-plan": k.get("plan")}
        if kind != "preview":
            f["yes"] = f["skip-preview"] = True
        return cmd(kind, **f)

    def hist(self, c, show=True, size=None, page=None):
        return cmd("stack history", json=True, show_secrets=show, page_size=size, page=(page or 1) if size else None, stack=c.spec["stack"], config_file=self.hook(c))

    def outs(self, c):
        return [cmd("stack output", json=True, stack=c.spec["stack"]), cmd("stack output show", json=True, show_secrets=True, stack=c.spec["stack"])]

    def x_up(self, c, op, rec):
        (u,) = yield [self.upd(c, op, "up")]
        a, b, h = yield self.outs(c) + [self.hist(c, op["kw"].get("show_secrets", True), 1)]
        return {"stdout": W.lines(u["out"]), "stderr": u["err"], "outputs": outputs(a, b), "summary": summary(js(h)[0])}

    def x_preview(self, c, op, rec):
        (u,) = yield [self.upd(c, op, "preview")]
        s = [e["summaryEvent"] for e in u["events"] or [] if "summaryEvent" in e]
        return {"stdout": W.lines(u["out"]), "stderr": u["err"], "changes": s[0]["resourceChanges"] if s else None}

    def x_refresh(self, c, op, rec, kind="refresh"):
        (u,) = yield [self.upd(c, op, kind)]
        (h,) = yield [self.hist(c, op["kw"].get("show_secrets", True), 1)]
        return {"stdout": W.lines(u["out"]), "stderr": u["err"], "summary": summary(js(h)[0])}

    def x_destroy(self, c, op, rec):
        return self.x_refresh(c, op, rec, "destroy")

    def x_config_get(self, c, op, rec):
        (r,) = yield [cmd("config get", [op["key"]], json=True, stack=c.spec["stack"])]
        return [js(r)["value"], js(r)["secret"]]

    def all_config(self, c):
        return cmd("config", show_secrets=True, json=True, stack=c.spec["stack"])

    def x_config_all(self, c, op, rec):
        (r,) = yield [self.all_config(c)]
        return {k: [v["value"], v["secret"]] for k, v in js(r).items()}

    def x_config_set(self, c, op, rec):
        yield [cmd("config set", [op["key"], op["value"]], stack=c.spec["stack"], **{"secret" if op["secret"] else "plaintext": True})]

    def x_config_set_all(self, c, op, rec):
        fl, order = {}, []
        for k, v, s in op["items"]:
            n = "secret" if s else "plaintext"
            fl.setdefault(n, []).append("%s=%s" % (k, v))
            order.append((n, "%s=%s" % (k, v)))
        yield [cmd("config set-all", order=order, stack=c.spec["stack"], **fl)]

    def x_config_rm(self, c, op, rec):
        yield [cmd("config rm", [op["key"]], stack=c.spec["stack"])]

    def x_config_rm_all(self, c, op, rec):
        yield [cmd("config rm-all", op["keys"], stack=c.spec["stack"])]

    def x_config_refresh(self, c, op, rec):
        yield [cmd("config refresh", force=True, stack=c.spec["stack"])]
        if any(r.get("key") == "config" for r in rec["cli"]):
            yield [self.all_config(c)]

    def x_outputs(self, c, op, rec):
        a, b = yield self.outs(c)
        return outputs(a, b)

    def x_history(self, c, op, rec):
        k = op["kw"]
        (h,) = yield [self.hist(c, k.get("show_secrets", True), k.get("page_size"), k.get("page"))]
        return [summary(d) for d in js(h)]

    def x_info(self, c, op, rec):
        (h,) = yield [self.hist(c, op["kw"].get("show_secrets", True), 1)]
        return summary(js(h)[0]) if js(h) else None

    def x_cancel(self, c, op, rec):
        yield [cmd("cancel", yes=True, stack=c.spec["stack"], config_file=self.hook(c))]

    def x_export(self, c, op, rec):
        (r,) = yield [cmd("stack export", show_secrets=True, stack=c.spec["stack"])]
        return js(r)

    def x_import(self, c, op, rec):
        if op.get("unserialisable"):
            return None
        f = [r["flags"].get("file") for r in rec["cli"] if r.get("key") == "stack import"]
        (r,) = yield [cmd("stack import", file=f[0] if f else "?", stack=c.spec["stack"])]
        want = {"version": op["version"], "deployment": op["deployment"]}
        if r.get("imported") != want:
            self.bad("result.value", "%s import: the command read %s, the state given was %s" % (c.name, short(r.get("imported")), short(want)))

    def x_whoami(self, c, op, rec):
        (r,) = yield [cmd("whoami")]
        return r["out"].strip()

    @staticmethod
    def stk(d):
        return {"name": d["name"], "current": d["current"], "updating": d["updateInProgress"], "last": d.get("lastUpdate"), "count": d.get("resourceCount"),
                "url": d.get("url")}

    def x_stacks(self, c, op, rec):
        (r,) = yield [cmd("stack ls", json=True)]
        return [self.stk(d) for d in js(r)]

    def x_current(self, c, op, rec):
        (r,) = yield [cmd("stack ls", json=True)]
        cur = [d for d in js(r) if d["current"]]
        return self.stk(cur[0]) if cur else None

    def x_stack_rm(self, c, op, rec):
        yield [cmd("stack rm", [op["name"]], yes=True)]

    def x_stack_new(self, c, op, rec):
        yield [cmd("stack init", [op["name"]], secrets_provider=c.open_op["opts"].get("secrets_provider"))]

    def x_stack_select(self, c, op, rec):
        yield [cmd("stack select", [op["name"]])]

    def x_plugin_install(self, c, op, rec):
        a = op["args"]
        yield [cmd("plugin install", [a[2] if len(a) > 2 else "resource", a[0], a[1]])]

    def x_plugin_rm(self, c, op, rec):
        k = op["kw"]
        yield [cmd("plugin rm", [k.get("kind", "resource")] + [k[n] for n in ("name", "version_range") if k.get(n)], yes=True)]

    def x_plugins(self, c, op, rec):
        (r,) = yield [cmd("plugin ls", json=True)]
        return [{"name": p["name"], "kind": p["kind"], "size": p["size"], "used": p["lastUsedTime"], "installed": p.get("installTime"), "version": p.get("version")}
                for p in js(r)]

    def x_save_project(self, c, op, rec):
        want = W.tidy(op["settings"])
        r = rec["result"]
        if r is not None and isinstance(r["raw"], dict):
            r["raw"] = W.tidy(r["raw"])
        return {"raw": want, "back": want}
        yield

    @staticmethod
    def stack_raw(s):
        d = {n: s[k] for k, n in (("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt"),
                                  ("config", "config")) if s.get(k)}
        return d

    def x_save_stack(self, c, op, rec):
        return {"raw": self.stack_raw(op["settings"]), "back": {k: v for k, v in op["settings"].items() if v}}
        yield

    def x_edit_stack(self, c, op, rec):
        raw = op["raw"]
        back = {k: raw[n] for k, n in (("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt"),
                                       ("config", "config")) if raw.get(n)}
        return {"back": back, "raw": {k: v for k, v in raw.items() if v}, "files": ["." + op["ext"]]}
        yield

    def x_edit_project(self, c, op, rec):
        want = W.tidy(op["raw"])
        r = rec["result"]
        if r is not None and isinstance(r["raw"], dict):
            r["raw"] = W.tidy(r["raw"])
        return {"raw": want, "back": want, "files": ["." + op["ext"]]}
        yield

    def open_files(self, c, op, rec, who):
        o = op["opts"]
        given = o.get("project_settings")
        for i, (name, project) in enumerate((o.get("first") or []) + [(c.spec["stack"], c.spec["project"])]):
            raw, loaded = rec["projects"][i], rec["loaded"][i]
            if given:
                want = W.tidy(given)
            elif o.get("pre_project"):
                want = W.tidy(o["pre_project"])
            elif op["host"] == "inline":
                want = {"name": project, "runtime": "python", "main": os.getcwd()}
            else:
                want = None
            for what, x in (("the project file of", raw), ("the project settings of", loaded)):
                d = self.differ(want, W.tidy(x) if isinstance(x, dict) else x)
                if d:
                    self.bad("settings.value", "%s: %s %s: %s" % (who, what, name, d))
        for n, s in (o.get("stack_settings") or {}).items():
            raw, back = rec["setback"][n]
            for what, e, a in (("file", self.stack_raw(s), raw), ("settings", {k: v for k, v in s.items() if v}, back)):
                d = self.differ(e, a)
                if d:
                    self.bad("settings.value", "%s: the %s of %s: %s" % (who, what, n, d))

    # ------------------------------------------------------------ events
    def events(self, c, rec):
        op = rec["op"]
        mode = op.get("events")
        if op["k"] not in ("up", "preview", "refresh", "destroy"):
            return
        main = self.main(rec)
        who = "%s %s" % (c.name, op["k"])
        if not mode:
            return
        if main is None or main.get("usage"):
            if rec["events"]:
                self.bad("event.extra", "%s: events without a command" % who)
            return
        if not main["flags"].get("event-log"):
            self.bad("event.missing", "%s: events were asked for and the command was not told to write any" % who)
            return
        wrote = list(main["events"] or [])
        maybe = wrote.pop() if main.get("partial") and wrote else None
        act = rec["events"]
        for i, ob in enumerate(act):
            e = wrote[i] if i < len(wrote) else maybe if i == len(wrote) and maybe is not None else None
            if e is None:
                self.bad("event.extra", "%s: %d events were delivered, %d were written" % (who, len(act), len(wrote)))
                break
            d = W.same_event(e, ob)
            if d:
                self.bad("event.order" if "arrived where" in d else "event.value", "%s: %s" % (who, d))
                break
        if mode.startswith("raise") and len(act) >= int(mode[5:]):
            return
        if self.stuck is None and len(act) < len(wrote):
            self.bad("event.missing", "%s: %d events were written, only %d were ever delivered" % (who, len(wrote), len(act)))
            return
        slow = float(mode[4:]) * len(wrote) if mode.startswith("slow") else 0.0
        if slow < 4.0 and rec["nevents"] < len(wrote):
            self.bad("event.late", "%s returned when only %d of %d events had been delivered" % (who, rec["nevents"], len(wrote)))

    # ------------------------------------------------------------ inline programs
    def runs(self, c, rec):
        run = rec["run"]
        if run is None:
            return
        who = "%s %s" % (c.name, rec["op"]["k"])
        att, rts = run["attempts"], run["rts"]
        if len(rts) > len(att):
            self.bad("prog.runs", "%s: the program ran %d times for %d runs of the engine" % (who, len(rts), len(att)))
        if not att:
            return
        a = att[0]
        if a["ok"] is None and not a["killed"] and self.stuck is None:
            return
        if not rts:
            if a["ok"]:
                self.bad("prog.runs", "%s: the run succeeded but the program never ran" % who)
            elif not a["killed"] and not a["eng"].dead:
                self.bad("prog.end.false_failure", "%s: %s" % (who, a["detail"][-300:]))
            return
        out = Outcome()
        out.ok, out.detail = bool(a["ok"]), a["detail"]
        o = Oracle(run["wl"], a["eng"], rts[0], out)
        for k, m in o.run(stuck=None):
            self.bad("prog." + k, "%s: %s" % (who, m))

"""Swarm generator of automation workloads: clients, the operations they run, what the command line answers, and faults."""
import copy
import json
import random

from . import gen

ABASE = {
    # permille
    "clients": (1, 3), "ops": (2, 6), "inline": 600, "existing": 200, "sabotage": 200, "overlap": 700,
    "events": 500, "slowcb": 200, "cbraise": 120, "output": 300, "opt": 350, "env": 500, "shared": 250,
    "clifail": 180, "torn": 350, "sysfail": 150, "progfail": 200, "kill": 90, "nocancel": 60, "bigout": 80, "exotic": 350, "hooks": 120, "badver": 12,
    "w_up": 30, "w_preview": 20, "w_refresh": 8, "w_destroy": 8, "w_config": 14, "w_misc": 14, "w_settings": 8, "w_state": 8,
    "prog": {"n": (1, 4)},
}
STD = ("ok", "a b", "Ünï\u2603", "x=y", "-dash", "--flag", "", "line1\nline2", "\u0085nel", "sep\u2028x", "tab\tq\"uote'\\", "0", "true")
OPS = ("same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard",
       "discard-replaced", "remove-pending-replace", "import", "import-replacement")
DIFFS = ("add", "add-replace", "delete", "delete-replace", "update", "update-replace")
FAILS = {
    "notfound": {"err": "error: no stack named 'q' found\n"},
    "exists": {"err": "error: stack 'q' already exists\n"},
    "conflict": {"err": "error: [409] Conflict: Another update is currently in progress.\nTo learn more about possible reasons and resolution, visit x\n"},
    "compile": {"out": ["Diagnostics:\n", "  main.go:3:4: undefined: x\n"], "err": "error: exit status 1\n"},
    "compile2": {"out": ["error TS2304\n", "Unable to compile TypeScript\n"], "err": ""},
    "runtime": {"out": ["Diagnostics:\n", "error: Running program failed with an unhandled exception:\n", "  boom\n"], "err": ""},
    "runtime2": {"out": ["panic: runtime error: index out of range\n"], "err": "goroutine 1 [running]:\n"},
    "inline": {"out": ["  error: python inline source runtime error: boom\n"], "err": ""},
    "generic": {"err": "error: something else went wrong\n"},
    "nearly": {"err": "error: creating resource: bucket already exists\n"},
    "decoy": {"out": ["  aws:s3:Bucket b **failed** error: no stack named q found\n", "  stack 'q' already exists\n"], "err": "error: update failed\n"},
    "decoy2": {"err": "error: x.yaml:3: syntax error: in a policy\nerror: it failed with an unhandled exception\n"},
    "both": {"out": ["Diagnostics:\n", "error: Running program failed with an unhandled exception:\n"], "err": "error: [409] Conflict: Another update is currently in progress.\n"},
    "both2": {"out": ["Unable to compile TypeScript\n"], "err": "error: no stack named 'q' found\n"},
    "silent": {"err": ""},
    "garbled": {"out": ["caf\u00e9 \u2028 half \u0085 line"], "err": "w\u00e4rning\nerror: exit 3\n", "code": 3},
    "killed": {"out": ["working...\n"], "err": ""},
}


class AGen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(ABASE)
        self.p.update(prof or {})
        for k, v in list(self.p.items()):
            if isinstance(v, int) and not k.startswith("w_") and ("!" + k) not in self.p:
                self.p[k] = min(950, v * rng.choice((0, 1, 1, 1, 2)))
        self.n = 0

    def ch(self, k):
        return self.r.random() * 1000 < self.p[k]

    def s(self, exotic=True):
        self.n += 1
        r = self.r
        if exotic and self.ch("exotic"):
            return r.choice(STD)
        return "v%d" % self.n

    def line(self):
        """Something printable, no line break inside."""
        return self.r.choice(("plain", "caf\u00e9 \u2603", "  indented  ", "", "tail   ", "a\u2028b", "\u0085", "nb\u00a0sp\u00a0", "cr\rcr", "x" * 300)) \
            + ("%d" % self.n if self.r.random() < 0.5 else "")

    # ------------------------------------------------------------ events
    def state(self):
        r = self.r
        d = {"type": "a:b:C", "urn": "urn:pulumi:s::p::a:b:C::n%d" % self.n, "id": r.choice(("", "id-1")), "parent": r.choice(("", "urn:pulumi:s::p::x::y")),
             "inputs": r.choice((None, {}, {"a": [1, {"b": None}], "s": self.s()})), "outputs": r.choice((None, {}, {"o": {"z": 1.5}})),
             "provider": "urn:pulumi:s::p::pulumi:providers:a::d::id"}
        if r.random() < 0.4:
            d["custom"] = True
        if r.random() < 0.2:
            d["delete"] = True
        if r.random() < 0.2:
            d["protect"] = True
        if r.random() < 0.2:
            d["initErrors"] = ["e1", self.s()]
        return d

    def meta(self):
        r = self.r
        d = {"op": r.choice(OPS), "urn": "urn:pulumi:s::p::a:b:C::n%d" % self.n, "type": "a:b:C", "old": self.state() if r.random() < 0.5 else None,
             "new": self.state() if r.random() < 0.6 else None, "provider": r.choice(("", "urn:pulumi:s::p::pulumi:providers:a::d::id"))}
        if r.random() < 0.3:
            d["keys"] = ["k1", "k2"][: r.randint(1, 2)]
        if r.random() < 0.3:
            d["diffs"] = ["p.q", "r[0]"][: r.randint(1, 2)]
        if r.random() < 0.4:
            d["detailedDiff"] = {k: {"diffKind": r.choice(DIFFS), "inputDiff": r.random() < 0.5} for k in ("a.b", "c[0]", "\u00e9")[: r.randint(1, 3)]}
        if r.random() < 0.3:
            d["logical"] = True
        return d

    def ev(self):
        r = self.r
        self.n += 1
        k = r.randrange(8)
        if k < 2:
            d = {"message": self.s(), "color": r.choice(("always", "never", "raw")), "severity": r.choice(("info", "info#err", "warning", "error"))}
            for n, v in (("urn", "urn:pulumi:s::p::a:b:C::n"), ("prefix", "<{%fg 1%}>"), ("streamID", r.randint(1, 99)), ("ephemeral", True)):
                if r.random() < 0.4:
                    d[n] = v
            return {"diagnosticEvent": d}
        if k == 2:
            return {"stdoutEvent": {"message": self.s(), "color": "never"}}
        if k == 3:
            d = {"message": self.s(), "color": "never", "policyName": "pn%d" % self.n, "policyPackName": "ppn", "policyPackVersion": "1",
                 "policyPackVersionTag": "v1.0.%d" % self.n, "enforcementLevel": r.choice(("warning", "mandatory"))}
            if r.random() < 0.6:
                d["resourceUrn"] = "urn:pulumi:s::p::a:b:C::n%d" % self.n
            return {"policyEvent": d}
        if k == 4:
            return {"resOpFailedEvent": {"metadata": self.meta(), "status": r.randint(0, 4), "steps": r.randint(0, 3)}}
        n = r.choice(("resourcePreEvent", "resOutputsEvent"))
        d = {"metadata": self.meta()}
        if r.random() < 0.4:
            d["planning"] = True
        return {n: d}

    def prelude(self):
        return {"preludeEvent": {"config": {"proj:k%d" % i: self.s() for i in range(self.r.randint(0, 3))}}}

    def summary(self):
        r = self.r
        return {"summaryEvent": {"maybeCorrupt": r.random() < 0.2, "durationSeconds": r.randint(0, 90),
                                 "resourceChanges": {k: r.randint(1, 9) for k in r.sample(OPS, r.randint(0, 3))},
                                 "PolicyPacks": r.choice((None, {}, {"pp": "v1.0.0"}))}}

    # ------------------------------------------------------------ what a command does
    def noise(self, n):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.45:
                self.n += 1
                out.append(["out", self.line() + "\n"])
            elif k < 0.55:
                out.append(["err", self.r.choice(("warning: x\n", "w\u00e4rn\n", "partial"))])
            elif k < 0.75:
                out.append(["wait", r.choice((0.0, 0.001, 0.05, 0.09, 0.1, 0.11, 0.5, 3.0))])
            else:
                out.append(["ev", self.ev()])
        return out

    def update_plan(self, kind, run, allow_death, op):
        """A plan for the main command; events delivered later than the join limit are avoided by keeping streams short."""
        r = self.r
        p = {"steps": [], "last": []}
        evs = r.choice((0, 2, 4, 8))
        steps = [["ev", self.prelude()]] + self.noise(evs)
        if r.random() < 0.3:
            for i in range(r.randint(1, 2)):
                steps.insert(r.randint(0, len(steps)), ["err", "diag %d\n" % i])
        if self.ch("bigout"):
            steps.insert(r.randint(0, len(steps)), ["out", ("y" * 63 + "\n") * r.choice((600, 1500))])
        if run is not None:
            k = {}
            if allow_death and self.ch("kill"):
                k["kill_after"] = r.choice((0.0, 0.01, 0.05, 0.2, 1.0))
                op["dies"] = 1
            steps.insert(r.randint(0, len(steps)), ["run", k])
        end = [["ev", self.summary()], ["ev", {"cancelEvent": {}}]]
        death = None
        if allow_death and self.ch("torn") and r.random() < 0.25:
            death = ["tear", self.ev(), r.choice((0.05, 0.5, 0.95, 0.999))]
        elif allow_death and self.ch("kill"):
            death = ["die", r.choice((9, 15))]
        if death is not None:
            op["dies"] = 1
            at = r.randint(0, len(steps))
            steps.insert(at, death)
        p["steps"] = steps
        p["last"] = end
        if r.random() < 0.4:
            p["post"] = "Resources:\n    + 1 created\n" + ("no newline" if r.random() < 0.3 else "")
        if death is None and self.ch("clifail") and r.random() < 0.4:
            # the update itself fails after it ran
            p["code"] = r.choice((1, 255))
            p["failerr"] = "error: update failed\n"
            if r.random() < 0.4:
                f = r.choice(("compile", "runtime", "generic"))
                p["failtext"] = "".join(FAILS[f].get("out", ()))
        if self.ch("nocancel") and kind == "update":
            # a command that ends normally without saying so in its log
            p["last"] = end[:1]
            p["nocancel"] = 1
        p["outputs"] = {"o%d" % i: self.wire() for i in range(r.randint(0, 3))}
        return p

    def wire(self):
        from . import wire
        v = self.r.choice((self.s(), 4, 2.5, True, None, [1, "x"], {"k": {"z": "q"}}, "", []))
        return wire.secret(v) if self.r.random() < 0.4 else v

    def fail(self):
        k = self.r.choice(sorted(FAILS))
        f = copy.deepcopy(FAILS[k])
        f["kind"] = k
        if k not in ("garbled", "killed") and self.r.random() < 0.4:
            f["code"] = self.r.choice((1, 2, 255))
        if self.r.random() < 0.3 and k not in ("silent",):
            f.setdefault("out", []).insert(0, "first some output\n")
        return f

    # ------------------------------------------------------------ programs
    def prog(self, i, tag, preview, dead):
        r = self.r
        pp = dict({"cenv": 0, "penv": 0}, **self.p["prog"])
        if dead:
            pp.update({"err": 0})
        elif self.ch("progfail"):
            pp.update(r.choice(({"err": 400}, {"raise": 300}, {"cbraise": 300}, {"corofail": 300}, {"feat_err": 300})))
        for k in range(60):
            wl = gen.generate("a/%s/%d" % (tag, k), pp)
            wl.pop("die_time", None)
            if not dead:
                wl.pop("die_after", None)
            wl["preview"] = preview
            wl["host"] = "inline"
            wl["project"], wl["stack"] = "p%d" % i, "st%d" % i
            s = json.dumps(wl).replace("urn:pulumi:stk::proj::", "urn:pulumi:st%d::p%d::" % (i, i)).replace("proj:", "p%d:" % i) \
                .replace("cfg-s", "cfg%d-s" % i).replace('\\"cfg\\"', '\\"cfg%d\\"' % i)
            wl = json.loads(s)
            if fine(wl):
                return wl
        raise RuntimeError("no program for %s" % tag)

    # ------------------------------------------------------------ operations
    def kwargs(self, kind):
        r = self.r
        kw = {}

        def opt(k, v):
            if self.ch("opt") and r.random() < 0.6:
                kw[k] = v
        txt = lambda: r.choice(("a message", "with \"quotes\" and 'x'", "--looks-like-a-flag", "Ünï\nsecond", "-m", "x=y", "", "--"))  # noqa
        opt("parallel", r.choice((1, 4, 100)))
        opt("message", txt())
        opt("target", r.choice((["urn:a"], ["urn:a::b$c", "urn with space"], [], ["-t"])))
        if kind != "destroy":
            opt("expect_no_changes", r.random() < 0.7)
        opt("color", r.choice(("always", "never", "raw")))
        opt("log_flow", True)
        opt("log_verbosity", r.choice((1, 3, 9)))
        opt("log_to_std_err", True)
        opt("tracing", "file:./trace x")
        opt("debug", True)
        if kind in ("up", "preview", "destroy"):
            opt("target_dependents", r.random() < 0.8)
        if kind in ("up", "preview"):
            opt("diff", True)
            opt("replace", r.choice((["urn:r1", "urn:r2"], ["urn:r"])))
            opt("policy_packs", ["./pp", "p q"][: r.randint(1, 2)])
            opt("policy_pack_configs", ["c1.json", "c2.json"][: r.randint(1, 2)])
            opt("plan", "some plan.json")
        if kind != "preview" and r.random() < 0.3:
            kw["show_secrets"] = r.random() < 0.5
        return kw

    def update(self, i, k, kind, inline):
        r = self.r
        op = {"k": kind, "kw": self.kwargs(kind), "plans": {}}
        allow = True
        prog = kind in ("up", "preview")
        run = None
        if prog:
            if not inline and r.random() < 0.3:
                op["prog"] = "arg"
            elif inline and r.random() < 0.3:
                op["prog"] = "arg"
        ev = self.ch("events")
        if ev:
            op["events"] = "list"
            if self.ch("slowcb"):
                op["events"] = "slow%s" % r.choice(("0.01", "0.1", "0.3", "0.7"))
            elif self.ch("cbraise"):
                op["events"] = "raise%d" % r.choice((1, 2, 3, 5))
        if self.ch("output"):
            op["output"] = "raise%d" % r.choice((1, 2, 5)) if self.ch("cbraise") else "list"
        if prog and (inline or op.get("prog")):
            dead = self.ch("kill") and r.random() < 0.4
            op["run"] = run = self.prog(i, "%d/%s/%d" % (i, r.random(), k), kind == "preview", dead)
            if run.get("die_after"):
                op["dies"] = 1
        p = self.update_plan(kind, run, allow, op)
        n = sum(1 for s in p["steps"] + p["last"] if s[0] == "ev")
        if kind == "preview" and (op.get("events") or "").startswith("slow"):
            # the result of a preview is read from the events: they must arrive within the time it waits for them
            op["events"] = "slow%s" % min(float(op["events"][4:]), 0.2)
            if n * float(op["events"][4:]) > 3.0:
                op["events"] = "slow0.01"
        if kind == "preview" and (op.get("events") or "").startswith("raise"):
            op["events"] = "list"   # whether a preview then has a summary is not specified
        if kind == "preview" and p.get("code"):
            pass
        op["plans"][kind] = p
        if op.get("dies") and run is not None:
            op["prog"] = "arg"   # a program that goes on after its engine died belongs to this operation
        self.sys(op, ev or kind == "preview", run is not None)
        self.clifail(op, {"up": ["up", "stack output", "stack output show", "stack history"], "preview": ["preview"],
                          "refresh": ["refresh", "stack history"], "destroy": ["destroy", "stack history"]}[kind])
        return op

    def sys(self, op, ev, run):
        if self.ch("sysfail"):
            r = self.r
            kinds = ["spawn", "open"] + (["mkdir", "thread"] if ev else []) + (["bind"] if run else [])
            k = r.choice(kinds)
            op["sys"] = {k: r.choice((1, 1, 1, 2, 3)) if k in ("spawn", "open") else 1}

    def clifail(self, op, keys):
        if self.ch("clifail"):
            k = self.r.choice(keys)
            op["plans"] = dict(op.get("plans") or {})
            op["plans"][k] = dict(op["plans"].get(k) or {}, fail=self.fail())

    def simple(self, k, cmds, **kw):
        op = dict(kw, k=k)
        if self.ch("sysfail") and self.r.random() < 0.4:
            op["sys"] = {"spawn": self.r.choice((1, 1, 2))} if self.r.random() < 0.6 else {"open": self.r.choice((1, 2))}
        self.clifail(op, cmds)
        if self.r.random() < 0.1:
            op.setdefault("plans", {}).setdefault(cmds[0], {})["before"] = [["wait", self.r.choice((0.01, 0.5, 2.0))]]
        return op

    def config(self, i):
        r = self.r
        keys = ["p%d:%s" % (i, x) for x in ("a", "b", "c.d", "e")] + ["other:z"]
        k = r.randrange(8)
        if k == 0:
            return self.simple("config_get", ["config get"], key=r.choice(keys))
        if k == 1:
            return self.simple("config_all", ["config"])
        if k < 4:
            return self.simple("config_set", ["config set"], key=r.choice(keys), value=self.s(), secret=r.random() < 0.4)
        if k == 4:
            ks = r.sample(keys, r.randint(0, 4))
            return self.simple("config_set_all", ["config set-all"], items=[[x, self.s(), r.random() < 0.4] for x in ks])
        if k == 5:
            return self.simple("config_rm", ["config rm"], key=r.choice(keys))
        if k == 6:
            return self.simple("config_rm_all", ["config rm-all"], keys=r.sample(keys, r.randint(0, 3)))
        return self.simple("config_refresh", ["config refresh", "config"])

    def misc(self, i):
        r = self.r
        k = r.randrange(11)
        if k == 0:
            return self.simple("outputs", ["stack output", "stack output show"])
        if k == 1:
            kw = r.choice(({}, {"page_size": 2}, {"page_size": 1, "page": 2}, {"page_size": 10, "page": 1}, {"show_secrets": False}, {"page": 3}))
            return self.simple("history", ["stack history"], kw=kw)
        if k == 2:
            return self.simple("info", ["stack history"], kw=r.choice(({}, {"show_secrets": False})))
        if k == 3:
            return self.simple("cancel", ["cancel"])
        if k == 4:
            return self.simple("whoami", ["whoami"])
        if k == 5:
            return self.simple("stacks", ["stack ls"])
        if k == 6:
            return self.simple("current", ["stack ls"])
        if k == 7:
            return self.simple(r.choice(("stack_rm", "stack_new", "stack_select")), ["stack rm", "stack init", "stack select"], name="x%d-%d" % (i, r.randrange(2)))
        if k == 8:
            a = ["aws", "v5.1.%d" % r.randrange(3)]
            if r.random() < 0.4:
                a.append(r.choice(("resource", "language", "analyzer")))
            return self.simple("plugin_install", ["plugin install"], args=a)
        if k == 9:
            kw = r.choice(({}, {"name": "aws"}, {"name": "aws", "version_range": ">=1.0.0"}, {"name": "gcp", "kind": "analyzer"}, {"version_range": "<4.0.0"}, {"version_range": "<4.0.0", "kind": "language"}))
            return self.simple("plugin_rm", ["plugin rm"], kw=kw)
        return self.simple("plugins", ["plugin ls"])

    def deployment(self):
        r = self.r
        return {"manifest": {"time": self.s()}, "resources": [{"urn": "urn:%d" % j, "custom": True, "outputs": {"k": self.s(), "n": [1, None, 2.5]}}
                                                              for j in range(r.choice((0, 1, 3, 40)))]}

    def statefile(self, i):
        r = self.r
        if r.random() < 0.4:
            return self.simple("export", ["stack export"])
        op = self.simple("import", ["stack import"], version=3, deployment=self.deployment())
        if r.random() < 0.12:
            op["unserialisable"] = 1
            op.pop("sys", None)
            op.pop("plans", None)
        return op

    def project(self, i, full=True):
        r = self.r
        d = {"name": "p%d" % i, "runtime": r.choice(("python", "go", "nodejs", "dotnet"))}
        if full:
            if r.random() < 0.4:
                d["runtime"] = {"name": "python"}
                if r.random() < 0.7:
                    d["runtime"]["options"] = r.choice(({"virtualenv": "venv"}, {"virtualenv": "v", "x": {"y": [1, True]}}))
            for k, v in (("main", "src/"), ("description", "A: d\u00e9scription # x"), ("author", "me"), ("website", "https://x/y?z"), ("license", "MIT"),
                         ("config", "config/dir")):
                if r.random() < 0.3:
                    d[k] = v
            if r.random() < 0.3:
                d["backend"] = {"url": "s3://bucket?x=y"}
            if r.random() < 0.3:
                t = {}
                if r.random() < 0.5:
                    t["description"] = "t d"
                if r.random() < 0.3:
                    t["quickstart"] = "q"
                if r.random() < 0.3:
                    t["important"] = True
                if r.random() < 0.6:
                    t["config"] = {"p:k%d" % j: r.choice(({"description": "d"}, {"default": "x", "secret": True}, {"description": "e", "default": "1"}))
                                   for j in range(r.randint(1, 2))}
                d["template"] = t or {"description": "z"}
        return d

    def stack_settings(self, i, typed=True):
        r = self.r
        d = {}
        if r.random() < 0.4:
            d["secrets_provider"] = "awskms://alias/x?region=us"
        if r.random() < 0.4:
            d["encrypted_key"] = "AbC=="
        if r.random() < 0.4:
            d["encryption_salt"] = "v1:salt:x"
        if r.random() < 0.8:
            c = {}
            for j in range(r.randint(1, 4)):
                v = r.choice(("plain", "", "true", "17", {"secure": "AAAB=="}, {"nested": {"deep": ["x", {"secure": "AAAC=="}]}}, ["a", "b"], 42, True, 1.5,
                              {"secure": "AAAD==", "other": 1}, "\u00fcx: y"))
                c["p%d:k%d" % (i, j)] = v
            d["config"] = c
        return d

    def settings(self, i):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            op = {"k": "save_project", "settings": self.project(i)}
            if r.random() < 0.15:
                op["beside"] = r.sample(("yaml", "yml", "json"), 2)
            return op
        if k == 3:
            d = self.project(i)
            t = d.get("template")
            if t and "config" not in t and r.random() < 0.4:
                t["config"] = r.choice((None, {}))
            return {"k": "edit_project", "ext": r.choice(("yaml", "yml", "json")), "raw": d}
        name = r.choice(("dev%d" % i, "org/p%d/dev%d" % (i, i)))
        if k == 1:
            op = {"k": "save_stack", "name": name, "settings": self.stack_settings(i)}
            if r.random() < 0.15:
                op["beside"] = r.sample(("yaml", "yml", "json"), 2)
            return op
        s = self.stack_settings(i)
        raw = {n: s[k2] for k2, n in (("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt"),
                                      ("config", "config")) if k2 in s}
        return {"k": "edit_stack", "name": name, "ext": r.choice(("yaml", "yml", "json")), "raw": raw}

    # ------------------------------------------------------------ clients
    def opened(self, i, inline, exists):
        r = self.r
        mode = r.choice(("create_or_select", "create_or_select", "select" if exists else "create"))
        if r.random() < 0.06:
            mode = "create" if exists else "select"    # and so nothing can be done
        o = {}
        if self.ch("env"):
            o["env"] = {"AWS_X%d" % j: self.s() for j in range(r.randint(1, 2))}
            if r.random() < 0.3:
                o["env"]["COMMON"] = "c%d" % i
            if r.random() < 0.2:
                o["env"]["PULUMI_DEBUG_COMMANDS"] = r.choice(("false", "1", ""))
        if r.random() < 0.3:
            o["home"] = True
        if r.random() < 0.2:
            o["secrets_provider"] = "passphrase"
        if inline:
            if r.random() < 0.3:
                o["work_dir"] = True
                if r.random() < 0.5:
                    d = self.project(i, False)
                    d["main"] = "elsewhere"
                    o["pre_project"] = d
                    o["pre"] = ["Pulumi.json", json.dumps(d)] if r.random() < 0.5 else ["Pulumi.yaml", json.dumps(d)]
        else:
            d = self.project(i, False)
            o["pre_project"] = d
            o["pre"] = ["Pulumi.yaml", json.dumps(d)]
        if r.random() < 0.25:
            o["project_settings"] = self.project(i)
        if r.random() < 0.25:
            o["stack_settings"] = {n: self.stack_settings(i) for n in r.sample(("set%d" % i, "set%db" % i, "org/proj/set%dc" % i), 3)[: r.randint(1, 2)]}
        if inline and not o.get("work_dir") and not o.get("project_settings") and self.ch("shared"):
            o["first"] = [["st%dz" % i, "p%dz" % i]]
        if self.ch("hooks") and (not inline or o.get("project_settings")) and not o.get("first"):
            o["hooks"] = 1
        op = {"k": "open", "mode": mode, "host": "inline" if inline else "local", "opts": o, "plans": {}}
        if o.get("first"):
            op["mode"] = "create_or_select"
        self.clifail(op, ["version", "stack init", "stack select"])
        if self.ch("sysfail") and r.random() < 0.3:
            op["sys"] = {"spawn": r.randint(1, 3)}
        if op["plans"] and r.random() < 0.7:
            op["plans"] = {}
        return op

    def client(self, i, existing):
        r = self.r
        inline = self.ch("inline")
        if self.ch("existing"):
            existing["st%d" % i] = {}
        ops = [self.opened(i, inline, "st%d" % i in existing)]
        kinds = [k[2:] for k in sorted(self.p) if k.startswith("w_")]
        ws = [self.p["w_" + k] for k in kinds]
        for k in range(r.randint(*self.p["ops"])):
            x = r.choices(kinds, ws)[0]
            if x in ("up", "preview", "refresh", "destroy"):
                op = self.update(i, k, x, inline)
            else:
                op = {"config": self.config, "misc": self.misc, "settings": self.settings, "state": self.statefile}[x](i)
            if r.random() * 1000 >= self.p["overlap"]:
                op["pause"] = r.choice((0.1, 1.0, 10.0))
            ops.append(op)
        c = {"name": "c%d" % i, "stack": "st%d" % i, "project": "p%d" % i, "ops": ops}
        if r.random() < 0.3:
            c["at"] = r.choice((0.001, 0.01, 0.1, 1.0))
        return c

    def saboteur(self, c):
        """Another client of the same stack: it cancels, looks, and gets in the way."""
        r = self.r
        ops = [{"k": "open", "mode": "create_or_select", "host": "local", "opts": {"pre_project": {"name": c["project"], "runtime": "python"},
                                                                              "pre": ["Pulumi.yaml", json.dumps({"name": c["project"], "runtime": "python"})]}}]
        for _ in range(r.randint(1, 4)):
            k = r.randrange(7)
            op = {"k": "cancel"} if k < 3 else {"k": "info", "kw": {}} if k == 6 else {"k": "whoami"} if k == 3 else {"k": "stacks"} if k == 4 \
                else {"k": "export"}
            op["pause"] = r.choice((0.0, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 3.0))
            ops.append(op)
        return {"name": c["name"] + "x", "stack": c["stack"], "project": c["project"], "ops": ops, "at": r.choice((0.01, 0.05, 0.2, 0.5, 1.0))}


def generate(seed, prof=None):
    rng = random.Random("auto:%s" % seed)
    g = AGen(rng, prof)
    existing = {}
    clients = [g.client(i, existing) for i in range(rng.randint(*g.p["clients"]))]
    if g.ch("sabotage"):
        clients.append(g.saboteur(rng.choice(clients)))
    wl = {"world": "auto", "clients": clients, "existing": existing, "environ": {"COMMON": "outer", "PULUMI_HOME": "/nowhere"} if rng.random() < 0.4 else {},
          "version": rng.choice(("v3.33.2", "v3.100.0-alpha.1+g12", "3.40.0")), "user": rng.choice(("someone", "org-user", "caf\u00e9"))}
    wl["spread"] = rng.choice((None, None, None, [0.001], [0.0, 1.0, 10.0], [0.001, 0.0015, 0.002, 0.003, 0.0]))
    if rng.random() * 1000 < g.p["badver"]:
        wl["version"] = rng.choice(("v2.25.0", "v3.0.9", "4.1.0", "v3.1.0-alpha.2", "dev", "v10", "v3.1.0"))
        for c in clients:
            for op in c["ops"]:
                if op["k"] == "open" and rng.random() < 0.5:
                    op["opts"].setdefault("env", {})["PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"] = rng.choice(("true", "1", ""))
        if rng.random() < 0.15:
            wl["environ"] = dict(wl["environ"], PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK="true")
    return wl


def fine(wl):
    from .model import Model
    m = Model(wl).run()
    mixed, circ = m.wait_cycles()
    wl.pop("_selfref", None)
    if circ:
        wl["_selfref"] = 1
    return not mixed and not m.nested_wait and not m.unspecified and not m.invalid and m.refs_answerable(circ)


WHOLE = {"settings", "raw", "pre_project", "pre", "project_settings", "stack_settings", "deployment", "items", "fail", "first", "args"}
REQUIRED = {"open": "mode host opts", "up": "kw", "preview": "kw", "refresh": "kw", "destroy": "kw", "config_get": "key", "config_set": "key value secret",
            "config_set_all": "items", "config_rm": "key", "config_rm_all": "keys", "history": "kw", "info": "kw", "import": "version deployment",
            "stack_rm": "name", "stack_new": "name", "stack_select": "name", "plugin_install": "args", "plugin_rm": "kw", "save_project": "settings",
            "save_stack": "name settings", "edit_stack": "name ext raw", "edit_project": "ext raw"}


def editable(wl, path):
    """These values make sense only as a whole."""
    v = wl
    for i, k in enumerate(path[:-1]):
        if k in WHOLE or isinstance(v, list) and v and v[0] in ("ev", "tear", "first"):
            return False
        v = v[k]
    return not (isinstance(v, list) and v and v[0] in ("ev", "tear"))


def legal(wl):
    names = set()
    if not wl["clients"]:
        return False
    for c in wl["clients"]:
        if any(k not in c for k in ("name", "stack", "project", "ops")):
            return False
        if c["name"] in names or not c["ops"] or c["ops"][0]["k"] != "open":
            return False
        names.add(c["name"])
        o = c["ops"][0]
        if o["host"] == "local" and not o["opts"].get("pre"):
            return False
        if bool(o["opts"].get("pre")) != bool(o["opts"].get("pre_project")):
            return False
        for op in c["ops"]:
            if any(k not in op for k in REQUIRED.get(op["k"], "").split()):
                return False
            for k, p in (op.get("plans") or {}).items():
                f = p.get("fail")
                if f is not None and f.get("kind") not in FAILS:
                    return False
            if op["k"] in ("up", "preview", "refresh", "destroy"):
                p = (op.get("plans") or {}).get(op["k"]) or {}
                if not isinstance(op.get("kw"), dict):
                    return False
                if op["k"] == "preview" and not p.get("fail") and not p.get("code"):
                    if not any(s[0] == "ev" and "summaryEvent" in s[1] for s in p.get("last", ())):
                        return False
                needs = op["k"] in ("up", "preview") and (o["host"] == "inline" or op.get("prog"))
                if needs and not op.get("run") and any(s[0] == "run" for s in p.get("steps", ())):
                    return False
                if op.get("dies") and op.get("run") and op.get("prog") != "arg":
                    return False
                if any(s[0] in ("die", "tear") or s[0] == "run" and s[1].get("kill_after") is not None for s in p.get("steps", ())) and not op.get("dies"):
                    return False
            if op.get("run") and not fine(op["run"]):
                return False
    return True

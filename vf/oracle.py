"""Compares what the engine and the program saw with what the reference model requires."""
from . import refs
from . import wire
from .model import UNK, MRes, Model

SEVS = {"debug": 0, "info": 1, "warn": 2, "error": 3}


def diff(exp, act, path=""):
    """[(class, message)] for two wire values. exp may contain ("deps", lo, hi)."""
    if isinstance(exp, tuple):
        return [("_deps", (path, exp, act))]
    if exp == wire.UNKNOWN or act == wire.UNKNOWN:
        if exp != act:
            out = [("unknown", "%s: expected %s, sent %s" % (path, short(exp), short(act)))]
            if isinstance(exp, dict) and exp.get(wire.SIG) == wire.OUTVAL and exp.get("secret"):
                out.append(("secret", "%s: secret %s sent as %s" % (path, short(exp), short(act))))
            return out
        return []
    es, as_ = wire.is_secret(exp), wire.is_secret(act)
    if es != as_:
        e2 = exp["value"] if es else exp
        a2 = act.get("value") if as_ else act
        out = [("secret", "%s: %s" % (path, "secret sent in the clear: %s" % short(act) if es else "value became secret: %s" % short(act)))]
        return out + diff(e2, a2, path)
    if isinstance(exp, dict) and isinstance(act, dict):
        if exp.get(wire.SIG) == wire.OUTVAL and act.get(wire.SIG) == wire.OUTVAL:
            out = []
            if bool(exp.get("secret")) != bool(act.get("secret")):
                out.append(("secret", "%s: output value secret=%s, expected %s" % (path, act.get("secret"), exp.get("secret"))))
            if ("value" in exp) != ("value" in act):
                out.append(("unknown", "%s: output value known=%s, expected %s" % (path, "value" in act, "value" in exp)))
            elif "value" in exp:
                out += diff(exp["value"], act["value"], path + ".value")
            out.append(("_deps", (path, exp["dependencies"], act.get("dependencies") or [])))
            return out
        out = []
        for k in sorted(set(exp) | set(act)):
            if k not in act:
                if exp[k] is None:
                    continue
                out.append(("value", "%s.%s is missing (expected %s)" % (path, k, short(exp[k]))))
            elif k not in exp:
                if act[k] is None:
                    continue
                out.append(("value", "%s.%s is unexpected (%s)" % (path, k, short(act[k]))))
            else:
                out += diff(exp[k], act[k], path + "." + str(k))
        return out
    if isinstance(exp, list) and isinstance(act, list):
        if len(exp) != len(act):
            return [("value", "%s: %d elements sent, expected %d" % (path, len(act), len(exp)))]
        out = []
        for i, (e, a) in enumerate(zip(exp, act)):
            out += diff(e, a, "%s[%d]" % (path, i))
        return out
    if wire.norm(exp) != wire.norm(act) or isinstance(exp, bool) != isinstance(act, bool):
        return [("value", "%s: expected %s, sent %s" % (path, short(exp), short(act)))]
    return []


def short(v):
    s = repr(v)
    return s if len(s) < 140 else s[:137] + "..."


class Oracle:
    def __init__(self, wl, eng, rt, outcome, model=None):
        self.wl, self.eng, self.rt, self.out = wl, eng, rt, outcome
        self.m = model or Model(wl).run()
        self.v = []
        self.model = self.m

    def bad(self, klass, msg):
        self.v.append((klass, msg))

    def fatal(self):
        return self.m.errors

    def urn_of(self, x):
        return x[1] if isinstance(x, tuple) else x.urn

    def run(self, stuck=None):
        m, eng, out = self.m, self.eng, self.out
        self.strict = bool(stuck is None and out is not None and out.ok)
        if stuck is not None:
            self.bad("stuck", stuck)
        elif out.ok:
            # (the inline host has nobody left to answer once the engine is gone, and says nothing)
            if self.fatal() and not (eng.dead and self.wl.get("host") == "inline"):
                self.bad("end.false_success", "the program succeeded although: %s" % "; ".join(self.fatal()[:3]))
        else:
            if not m.errors and not eng.dead and not self.wl["features"].get("_err"):
                self.bad("end.false_failure", "the program failed though nothing went wrong: %s" % (out.detail[-300:] + " " + " | ".join(
                    l["msg"][-500:] for l in eng.logs if l["sev"] == 3 and l["msg"] not in {x[1] for x in m.logs})))
        self.requests()
        self.invokes()
        self.calls()
        self.callbacks()
        self.outputs()
        self.logs()
        self.graph()
        for who, role, urn in eng.premature:
            self.bad("prec", "%s named %s as %s before its registration had finished" % (who, urn, role))
        # in a circle of resources the schedule decides which dependencies are left out, so who depends on the one that
        # failed is not fixed either
        loose = self.wl.get("_selfref") and (m.errors or eng.dead)
        seen, res = set(), []
        for k, msg in self.v:
            if loose and k in ("reg.after_failure", "deps.extra", "pdeps.extra"):
                continue
            if (k, msg) not in seen:
                seen.add((k, msg))
                res.append((k, msg))
        return res

    # ------------------------------------------------------------ registrations
    def requests(self):
        m = self.m
        by = {}
        for d in self.eng.requests:
            if d["rpc"] in ("register", "read"):
                by.setdefault(d["name"], []).append(d)
            elif d["rpc"] == "invoke" and d["tok"] == "pulumi:pulumi:getResource":
                by.setdefault("get:" + str(d["args"].get("urn")), []).append(d)
        self.by = by
        exp = {m.stack_res.name: m.stack_res} if m.has_stack else {}
        for r in m.order:
            exp["get:" + self.geturn(r) if r.kind == "get" else r.name] = r
        for key, ds in by.items():
            if len(ds) > 1 and not (key.startswith("get:") and refs.is_ref(key[4:])):
                self.bad("reg.dup", "%s reached the engine %d times" % (key, len(ds)))
            r = exp.get(key)
            if r is None and key.startswith("get:") and refs.is_ref(key[4:]):
                continue   # what a reference becomes
            if r is None:
                self.bad("reg.unexpected", "unexpected registration of %s" % key)
                continue
            if not r.attempted and not r.maybe:
                self.bad("reg.after_failure", "%s was sent to the engine although %s" % (key, r.err))
                continue
            if r is m.stack_res:
                self.stack_req(ds[0])
            elif r.req is not None:
                for d in ds:
                    self.request(r, d)
        if self.strict and not m.errors:
            for key, r in exp.items():
                if key not in by:
                    self.bad("reg.missing", "%s never reached the engine although the program succeeded" % key)
                elif r.kind != "get" and by[key][0]["urn"] not in self.eng.completed:
                    self.bad("reg.unfinished", "the program succeeded before the registration of %s finished" % key)

    def geturn(self, r):
        return r.req_urn

    def stack_req(self, d):
        if d["type"] != "pulumi:pulumi:Stack" or d["parent"] or d["custom"]:
            self.bad("opts.parent", "malformed stack registration %s" % short(d))

    def request(self, r, d):
        q = r.req
        n = r.name
        if d["rpc"] == "invoke":
            for k, msg in diff({"urn": r.req_urn}, d["args"], n):
                self.bad("obj." + k, msg)
            return
        want = "read" if r.kind == "read" else "register"
        if d["rpc"] != want:
            self.bad("opts.kind", "%s was sent as %s, expected %s" % (n, d["rpc"], want))
            return
        for k, msg in diff(q["object"], d["object"], n):
            if k == "_deps":
                path, (_, ds, before), act = msg
                lo, hi = self.m.expand(ds, before)
                self.deps(r, "obj.outdeps", path, lo, hi, set(act))
            else:
                self.bad("obj." + k, msg)
        self.field(n, "type", q["type"], d["type"])
        self.field(n, "parent", q["parent"], d["parent"])
        self.field(n, "provider", q["provider"], d["provider"])
        self.field(n, "version", q["version"], d["version"])
        self.field(n, "pdurl", q["pdurl"], d["pdurl"])
        self.field(n, "aso", q["aso"], d["aso"])
        self.field(n, "acceptSecrets", True, d["acceptSecrets"])
        self.field(n, "acceptResources", self.accept(), d["acceptResources"])
        if want == "read":
            for k, msg in diff(q["id"], d["id"], n + " id"):
                self.bad("obj." + k, msg)
        else:
            for f in ("custom", "remote", "providers", "protect", "ignore", "replace", "retain", "importId", "dbr", "dbr_defined", "timeouts"):
                self.field(n, f, q[f], d[f])
            self.field(n, "partial", True, d["partial"])
            if sorted(d["aliases"]) != q["aliases"]:
                self.bad("opts.aliases", "%s: aliases %s, expected %s" % (n, sorted(d["aliases"]), q["aliases"]))
        # dependencies
        m = self.m
        alld = set(r.deps_explicit)
        for ds in r.deps_prop.values():
            alld |= ds
        lo, hi = m.expand(alld, r.before)
        self.deps(r, "deps", n, lo, hi, set(d["dependencies"]))
        if len(set(d["dependencies"])) != len(d["dependencies"]):
            self.bad("deps.dup", "%s lists a dependency twice: %s" % (n, d["dependencies"]))
        if want == "register":
            for p in sorted(set(r.deps_prop) | set(d["propdeps"])):
                if p not in r.deps_prop:
                    self.bad("pdeps.extra", "%s: dependencies for unsent property %s" % (n, p))
                    continue
                if p not in d["propdeps"]:
                    if r.deps_prop[p]:
                        self.bad("pdeps.missing", "%s: no dependencies sent for property %s" % (n, p))
                    continue
                lo, hi = m.expand(r.deps_prop[p], r.before)
                self.deps(r, "pdeps", "%s.%s" % (n, p), lo, hi, set(d["propdeps"][p]))
                if not set(d["propdeps"][p]) <= set(d["dependencies"]):
                    self.bad("pdeps.extra", "%s.%s: property dependencies are not among the dependencies" % (n, p))

    def accept(self):
        return (self.wl.get("proc_env") or {}).get("PULUMI_DISABLE_RESOURCE_REFERENCES", "").upper() not in ("1", "TRUE")

    def field(self, n, f, exp, act):
        if exp != act:
            if f in ("provider", "providers"):   # a reference to a provider whose ID is not known yet
                e, a = ([x] if isinstance(x, str) else list((x or {}).values()) for x in (exp, act))
                if sum(str(x).endswith(wire.UNKNOWN) for x in e) != sum(str(x).endswith(wire.UNKNOWN) for x in a) and len(e) == len(a):
                    self.bad("obj.unknown", "%s: %s is %s, expected %s" % (n, f, short(act), short(exp)))
            self.bad("opts." + f, "%s: %s is %s, expected %s" % (n, f, short(act), short(exp)))

    def deps(self, r, klass, what, lo, hi, act):
        hu = {self.urn_of(x) for x in hi}
        for u in sorted(act - hu):
            self.bad(klass + ".extra", "%s depends on %s, from which nothing in it comes" % (what, u))
        lu = {self.urn_of(x) for x in lo if x is not r}
        miss = lu - act
        if miss and not self.strict and self.wl.get("_selfref"):
            return
        for u in sorted(x for x in miss if x is not None):
            if r is not None and klass != "obj.outdeps" and self.reaches(u, r.urn):
                continue
            if r is not None and klass == "obj.outdeps" and self.reaches(u, r.urn):
                continue
            self.bad(klass + ".missing", "%s does not list %s, from which its value comes" % (what, u))

    def sent_graph(self):
        if not hasattr(self, "_g"):
            g = {}
            for d in self.eng.requests:
                if d["rpc"] in ("register", "read"):
                    g.setdefault(d["urn"], set()).update(d["dependencies"])
                    for us in (d.get("propdeps") or {}).values():
                        g[d["urn"]].update(us)
            self._g = g
        return self._g

    def reaches(self, a, b):
        g = self.sent_graph()
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += sorted(g.get(x, ()))
        return False

    def graph(self):
        g = self.sent_graph()
        state = {}

        def visit(u):
            stack = [(u, iter(sorted(g.get(u, ()))))]
            state[u] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if state.get(y) == 1:
                        return (x, y)
                    if y not in state:
                        state[y] = 1
                        stack.append((y, iter(sorted(g.get(y, ())))))
                        break
                else:
                    state[x] = 2
                    stack.pop()
            return None
        for u in sorted(g):
            if u not in state:
                c = visit(u)
                if c:
                    self.bad("graph.cycle", "the dependency graph sent to the engine has a cycle through %s -> %s" % c)
                    return

    # ------------------------------------------------------------ the rest
    def multiset(self, klass, exp, act, full, what, eq):
        left = list(act)
        missing = []
        for e in exp:
            for i, a in enumerate(left):
                if eq(e, a):
                    del left[i]
                    break
            else:
                missing.append(e)
        return missing, left

    def invokes(self):
        act = [d for d in self.eng.requests if d["rpc"] == "invoke" and d["tok"] != "pulumi:pulumi:getResource"]
        exp = {}
        for e in self.m.invokes:
            exp.setdefault(e["tok"], []).append(e)
        for d in act:
            es = exp.get(d["tok"])
            if not es:
                self.bad("invoke.unexpected", "unexpected or repeated invoke of %s" % d["tok"])
                continue
            e = es.pop()
            for k, msg in diff(e["args"], d["args"], d["tok"]):
                self.bad("invoke." + k, msg)
            for f in ("provider", "version", "pdurl"):
                if e[f] != d[f]:
                    self.bad("invoke." + f, "%s: %s %s, expected %s" % (d["tok"], f, d[f], e[f]))
            if d["acceptResources"] != self.accept():
                self.bad("invoke.accept", "%s: accepts resources: %s" % (d["tok"], d["acceptResources"]))
        if self.strict and not self.m.errors:
            for t, es in exp.items():
                if es:
                    self.bad("invoke.missing", "%s was never invoked" % t)
        got = dict(self.rt.invoked)
        for x, c in got.items():
            e = self.m.inv_results.get(x)
            if e is not None and e != c:
                self.bad("invoke.result", "invoke result for %s is %s, expected %s" % (x, short(c), short(e)))

    def calls(self):
        act = [d for d in self.eng.requests if d["rpc"] == "call"]
        exp = {e["tok"]: e for e in self.m.calls}
        seen = set()
        for d in act:
            e = exp.get(d["tok"])
            if e is None or d["tok"] in seen:
                self.bad("call.unexpected", "unexpected or repeated call of %s" % d["tok"])
                continue
            seen.add(d["tok"])
            for k, msg in diff(e["args"], d["args"], d["tok"]):
                if k == "_deps":
                    path, (_, ds, before), a = msg
                    lo, hi = self.m.expand(ds, before)
                    self.deps(None, "call.outdeps", path, lo, hi, set(a))
                else:
                    self.bad("call." + k, msg)
            if d["provider"] != e["provider"]:
                self.bad("call.provider", "%s: provider %s, expected %s" % (d["tok"], d["provider"], e["provider"]))
            for f in ("version", "pdurl"):
                if d[f] != e[f]:
                    self.bad("call." + f, "%s: %s %s, expected %s" % (d["tok"], f, d[f], e[f]))
            for p in e["argdeps"]:
                lo = {self.urn_of(x) for x in e["argdeps"][p]}
                got = set(d["argdeps"].get(p, []))
                if not lo <= got:
                    self.bad("call.deps", "%s.%s: argument dependencies %s lack %s" % (d["tok"], p, sorted(got), sorted(lo - got)))
                if got - lo:
                    self.bad("call.deps", "%s.%s: argument dependencies %s include unrelated %s" % (d["tok"], p, sorted(got), sorted(got - lo)))
        if self.strict and not self.m.errors:
            for t in exp:
                if t not in seen:
                    self.bad("call.missing", "%s was never called" % t)

    def callbacks(self):
        left = {s: list(v) for s, v in self.m.cb.items()}
        for s, c in self.rt.fired:
            if s not in left:
                self.bad("cb.unexpected", "callback %s ran but its site cannot be reached" % s)
                continue
            if c in left[s]:
                left[s].remove(c)
            elif not left[s] and not self.m.cb[s]:
                self.bad("cb.unknown", "callback %s ran with %s although its input is unknown or failed" % (s, short(c)))
            elif c in self.m.cb[s]:
                self.bad("cb.count", "callback %s ran more than once with %s" % (s, short(c)))
            else:
                self.bad("cb.value", "callback %s ran with %s, expected %s" % (s, short(c), short(self.m.cb[s])))
        if self.strict and not self.m.errors:
            for s, cs in left.items():
                if cs:
                    self.bad("cb.missing", "callback %s never ran with %s" % (s, short(cs)))

    def outputs(self):
        m = self.m
        by = {}
        for urn, obj in self.eng.outputs:
            by.setdefault(urn, []).append(obj)
        exp = {m.stack_res.urn: ("outs", m.stack_outputs)}
        for n, w in m.comp_outputs.items():
            exp[m.res[n].urn] = ("compout", w)
        for urn, objs in by.items():
            if urn not in exp:
                self.bad("compout.unexpected", "outputs sent for %s, which never registers any" % urn)
                continue
            k, w = exp[urn]
            if len(objs) > 1:
                self.bad(k + ".dup", "outputs of %s sent %d times" % (urn, len(objs)))
            if w is None:
                if k == "compout":
                    self.bad("compout.after_failure", "outputs of %s sent although they cannot be computed" % urn)
                continue
            if k == "outs" and (m.main_raised or self.wl["features"].get("_err")):
                continue
            for kk, msg in diff(w, objs[0], "outputs of %s" % urn.rpartition("::")[2]):
                self.bad(k + "." + kk, msg)
        if self.strict and not m.errors:
            for urn, (k, w) in exp.items():
                if urn not in by:
                    self.bad(k + ".missing", "the program succeeded but outputs of %s were never sent" % urn)

    def logs(self):
        m = self.m
        exp = {x[1]: x for x in m.logs}
        seen = {}
        for l in self.eng.logs:
            if l["msg"] in exp:
                r, _, sev, stream, eph = exp[l["msg"]]
                seen[l["msg"]] = seen.get(l["msg"], 0) + 1
                urn = "" if r is None else r.urn
                if urn is not None and l["urn"] != urn:
                    self.bad("logs.urn", "message %r was attached to %r, expected %r" % (l["msg"], l["urn"], urn))
                if l["sev"] != SEVS[sev]:
                    self.bad("logs.sev", "message %r has severity %s, expected %s" % (l["msg"], l["sev"], sev))
                if l["stream"] != stream or l["eph"] != eph:
                    self.bad("logs.stream", "message %r: stream %s ephemeral %s, expected %s %s" % (l["msg"], l["stream"], l["eph"], stream, eph))
        for msg, n in seen.items():
            if n > 1:
                self.bad("logs.dup", "message %r was delivered %d times" % (msg, n))
        if self.strict and not m.errors:
            for msg in exp:
                if msg not in seen:
                    self.bad("logs.missing", "message %r was never delivered" % msg)

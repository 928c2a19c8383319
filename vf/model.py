"""The executable reference model of a program run.

It evaluates the same program description the interpreter runs against the real SDK, but
sequentially, with no event loop, no futures and no engine: every value is a final value
annotated with secretness and the resources it came from.  Nothing here depends on order.
"""
import json

from . import refs
from . import schema
from . import wire


class _Unk:
    def __repr__(self):
        return "UNK"


UNK = _Unk()


class ProgError(Exception):
    """The program's main flow raised."""


class CbError(Exception):
    """A callback raised."""


class MV:
    """An output: value (possibly containing UNK), secretness, dependencies, failure."""
    __slots__ = ("val", "sec", "deps", "err")

    def __init__(self, val, sec=False, deps=frozenset(), err=None):
        self.val, self.sec, self.deps, self.err = val, sec, frozenset(deps), err


class MAwait:
    """A coroutine or future that will produce `val` (a raw input) or fail."""
    __slots__ = ("val", "err", "coro", "waits")

    def __init__(self, val, err=None, coro=True, waits=frozenset()):
        self.val, self.err, self.coro = val, err, coro
        self.waits = frozenset(("wait", x) for x in waits)   # what it awaits without its value being one of theirs


class MBad:
    """A value that cannot be sent."""


class MEnum(str):
    """A member of the enumeration of the typed schema."""


class MArgs:
    """An object of an input type: Python field names to inputs."""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class TObj(dict):
    """An object of an output type: Python field names to values."""

    def __init__(self, cls, d):
        dict.__init__(self, d)
        self.cls = cls


class MAsset:
    def __init__(self, kind, what, arch=False):
        self.kind, self.what, self.arch = kind, what, arch


class MRes:
    def __init__(self, name, kind, typ):
        self.name, self.kind, self.type = name, kind, typ
        self.custom = kind in ("custom", "provider", "read", "get")
        self.remote = kind == "remote"
        self.children = []
        self.parent = None
        self.err = None
        self.attempted = False    # a request is expected (or allowed) to reach the engine
        self.req = None
        self.outs = {}
        self.prop_names = []
        self.id = None
        self.urn = None
        self.urnv = None
        self.before = None
        self.deps_explicit = frozenset()
        self.deps_prop = {}
        self.providers = {}
        self.provider = None
        self.protect = False
        self.aliases = []
        self.package = None
        self.flow_pos = None
        self.version = None
        self.pdurl = None
        self.maybe = False
        self.trans = []
        self.style = None
        self.hard = self.soft = frozenset()
        self.attrs = {}

    def __repr__(self):
        return "<%s>" % self.name


def has_unk(v, seen=None):
    if v is UNK:
        return True
    if isinstance(v, dict):
        return any(has_unk(x) for x in v.values())
    if isinstance(v, MArgs):
        return False
    if isinstance(v, list):
        return any(has_unk(x) for x in v)
    return False


def canon(v):
    """Mirror of interp.canon for model values."""
    if v is UNK:
        return "<unknown>"
    if isinstance(v, MRes):
        return "<res %s>" % v.name
    if isinstance(v, MAsset):
        return "<asset>"
    if isinstance(v, MV):
        return "<output>"
    if isinstance(v, MEnum):
        return "<color %s>" % str.__str__(v)
    if isinstance(v, MArgs):
        return "<args %s>" % v.cls + canon({k: x for k, x in v.f.items() if x is not None})
    if isinstance(v, TObj):
        return "<%s>" % v.cls + canon({k: x for k, x in v.items() if x is not None})
    if isinstance(v, bool):
        return repr(v)
    v = wire.norm(v) if isinstance(v, (int, float)) else v
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (k, canon(v[k])) for k in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, str):
        return v
    return repr(v)


class Flow:
    """One sequential flow of program code: what it created, in order, and where it forked."""

    def __init__(self, parent=None, ctx=()):
        self.parent = parent
        self.parent_pos = len(parent.items) if parent else 0
        self.items = []
        self.need = set()   # what its lookups wait for
        ctx = frozenset(x[1] if isinstance(x, tuple) else x for x in ctx if not isinstance(x, tuple) or x[0] == "wait")
        self.ctx = ctx | (parent.ctx if parent else frozenset())   # what had to resolve for this code to run

    def before(self, pos):
        s = set(self.items[:pos])
        f, p = self.parent, self.parent_pos
        while f is not None:
            s |= set(f.items[:p])
            f, p = f.parent, f.parent_pos
        return s


class CallNode:
    """A method call, as something others wait for."""
    kind = "call"


class CbNode:
    """A callback that makes a lookup, as something others wait for."""
    kind = "call"
    hard = soft = frozenset()


def makes_lookup(ops):
    return any(x["op"] == "invoke" or makes_lookup(x.get("children") or []) for x in ops)


def nowait(deps):
    return frozenset(d for d in deps if not (isinstance(d, tuple) and d[0] == "wait"))


class Model:
    has_stack = True

    def __init__(self, wl):
        self.wl = wl
        self.preview = bool(wl.get("preview"))
        self.features = wl.get("features") or {}
        self.project, self.stack = wl.get("project", "proj"), wl.get("stack", "stk")
        self.plans = wl.get("_plans") or {}
        self.invalid, self.unspecified = [], False
        self.res = {}
        self.order = []
        self.cb = {}             # site -> [expected canon params]
        self.exports = {}
        self.comp_outputs = {}   # name -> wire dict or err
        self.invokes = []
        self.call_nodes = []
        self.calls = []
        self.logs = []           # (res, msg, sev)
        self.errors = []         # causes of failure
        self.main_raised = False
        self.obs = {}            # observation label -> value
        self.stack_res = MRes("%s-%s" % (self.project, self.stack), "comp", "pulumi:pulumi:Stack")
        self.stack_res.urn = "urn:pulumi:%s::%s::pulumi:pulumi:Stack::%s" % (self.stack, self.project, self.stack_res.name)
        self.stack_res.urnv = MV(self.stack_res.urn, deps=[self.stack_res])
        self.cur_before = None
        self.inv_results = {}
        self.nested_wait = False  # a lookup in a callback waits for the result of a callback that makes a lookup

    def feat(self, f):
        if self.features.get("_unimplemented"):
            return False
        return bool(self.features.get(f, True))

    # ------------------------------------------------------------ running
    def run(self):
        plan = self.plans.get(self.stack_res.name) or {}
        self.stack_res.attempted = True
        if plan.get("err") or plan.get("hang_death"):
            self.stack_res.err = "engine"
            self.stack_res.urnv = MV(None, err="stack", deps=[self.stack_res])
            self.errors.append("stack registration fails")
        flow = Flow()
        try:
            self.ops(self.wl["ops"], {}, flow, None)
        except ProgError as e:
            self.main_raised = True
            self.errors.append("program raises: %s" % e)
        self.stack_outputs = None
        try:
            self.stack_outputs = {k: self.wire(self.massage(v)) for k, v in self.exports.items()}
            self.stack_outputs = {k: v for k, v in self.stack_outputs.items() if v is not None}
            if not self.main_raised and not self.stack_res.err and (self.plans.get("outputs:" + self.stack_res.name) or {}).get("err"):
                self.errors.append("the stack's outputs are refused")
        except CbError as e:
            self.errors.append("an exported value fails: %s" % e)
        return self

    def ops(self, ops, env, flow, parent):
        for op in ops:
            self.op(op, env, flow, parent)

    def op(self, op, env, flow, parent):
        k = op["op"]
        if k == "res":
            self.do_res(op, env, flow, parent)
        elif k == "let":
            env[op["x"]] = self.ev(op["e"], env, flow)
        elif k == "export":
            self.exports[op["k"]] = self.ev(op["e"], env, flow)
        elif k == "invoke":
            self.do_invoke(op, env, flow)
        elif k == "call":
            env[op["x"]] = self.do_call(op, env, flow)
        elif k == "opts":
            o = self.eval_opts(op.get("opts") or {}, env, flow)
            for x in op.get("merge") or []:
                o = merge_opts(env[x], o)
            env[op["x"]] = o
        elif k == "iopts":
            o = {}
            for x in op.get("merge") or []:
                o.update(env[x])
            o.update(op.get("opts") or {})
            env[op["x"]] = o
        elif k == "strans":
            self.stack_res.trans = self.stack_res.trans + [op["t"]]
        elif k == "log":
            r = self.res[op["r"]] if op.get("r") else None
            self.logs.append((r, op["msg"], op["sev"], op.get("stream") or 0, bool(op.get("eph"))))
            if r is not None and r.err:
                self.errors.append("log on failed resource")
        elif k == "raise":
            raise ProgError(op["msg"])
        elif k == "setattr":
            self.res[op["r"]].attrs[op["k"]] = self.ev(op["e"], env, flow)
        elif k == "observe":
            self.obs[op["label"]] = self.ev(op["e"], env, flow)
        elif k == "pause":
            pass
        else:
            raise ValueError(k)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, flow):
        h = e[0]
        if h == "lit":
            return e[1]
        if h == "var":
            return env[e[1]]
        if h == "param":
            return env["$"]
        if h == "ptag":
            return "%s<%s>" % (e[1], canon(env["$"]))
        if h == "res":
            return self.res[e[1]]
        if h == "prop":
            return self.res[e[1]].outs[e[2]]
        if h == "id":
            return self.res[e[1]].id
        if h == "urn":
            return self.res[e[1]].urnv
        if h in ("coro", "fut"):
            v = self.ev(e[1], env, flow)
            return MAwait(v, coro=h == "coro")
        if h == "peek":
            o = self.ev(e[2], env, flow)
            if o.err:
                if e[1] != "future":
                    self.unspecified = True   # whether that is known or secret
                return MAwait(None, err=o.err)
            known = not has_unk(o.val)
            return MAwait({"known": known, "secret": o.sec, "future": o.val if known else None}[e[1]], waits=self.flat(o))
        if h == "badval":
            return MBad()
        if h == "failcoro":
            self.errors.append("failing coroutine")
            return MAwait(None, err=e[1])
        if h == "list":
            return [self.ev(x, env, flow) for x in e[1]]
        if h == "dict":
            return {k: self.ev(x, env, flow) for k, x in e[1].items()}
        if h == "asset":
            return MAsset(e[1], e[2])
        if h == "farch":
            return MAsset(e[1], e[2], True)
        if h == "fpath":
            return MAsset("path", e[1])
        if h == "arch":
            return MAsset("assets", {k: self.ev(x, env, flow) for k, x in e[1].items()}, True)
        if h == "all":
            return self.all_([self.ev(x, env, flow) for x in e[1]])
        if h == "alld":
            return self.alld({k: self.ev(x, env, flow) for k, x in e[1].items()})
        if h == "from":
            o = self.deep(self.ev(e[1], env, flow))
            return MV(o.val, o.sec, o.deps, o.err)
        if h == "concat":
            o = self.all_([self.ev(x, env, flow) for x in e[1]])
            if o.err:
                return o
            if has_unk(o.val):
                return MV(UNK, o.sec, o.deps)
            return MV("".join(o.val), o.sec, o.deps)
        if h == "secret":
            o = self.deep(self.ev(e[1], env, flow))
            return MV(o.val, True, o.deps, o.err)
        if h == "unsecret":
            o = self.ev(e[1], env, flow)
            return MV(o.val, False, o.deps, o.err)
        if h == "idx":
            o = self.ev(e[1], env, flow)
            if o.err:
                return o
            if o.val is UNK:
                return MV(UNK, o.sec, o.deps)
            r = o.val[e[2]]
            return MV(r, o.sec, o.deps) if not isinstance(r, MV) else MV(r.val, o.sec or r.sec, o.deps | r.deps, r.err)
        if h == "apply":
            return self.apply(e[1], self.ev(e[2], env, flow), e[3], env, flow)
        if h == "cfg":
            return self.config(e[1])
        if h == "info" and e[1].startswith("hidden "):
            return e[1][7:] in (self.wl.get("config_secret_keys") or [])
        if h == "info":
            return {"stack": self.stack, "project": self.project, "preview": self.preview, "org": self.wl.get("org", "org")}[e[1]]
        if h == "sout":
            return self.stack_output(self.res[e[1]], self.deep(self.ev(e[2], env, flow)), e[3])
        if h == "args":
            return MArgs(e[1], {k: self.ev(x, env, flow) for k, x in e[2].items()})
        if h == "color":
            return MEnum(e[1])
        if h == "tuple":
            return [self.ev(x, env, flow) for x in e[1]]
        if h == "iset":
            return sorted(e[1])
        if h == "range":
            return list(range(e[1]))
        if h == "obj":
            return {k: self.ev(x, env, flow) for k, x in e[1].items()}
        if h == "dup":
            x = self.ev(e[1], env, flow)
            return {"a": x, "b": [x, x]}
        if h == "cyc":
            x = self.ev(e[2], env, flow)
            return {"dict": {"a": x, "self": None}, "list": [x, None], "deep": {"a": x, "l": [1, {"up": None}]},
                    "obj": {"a": x, "me": None}}[e[1]]
        if h == "attr":
            o = self.ev(e[1], env, flow)
            if o.err:
                return o
            if o.val is UNK:
                return MV(UNK, o.sec, o.deps)
            return MV(o.val.get(e[2]), o.sec, o.deps)
        raise ValueError(h)

    def config(self, c):
        m, secret = c["m"], "_secret" in c["m"]
        full = "%s:%s" % (c.get("ns") or self.project, c["k"])
        raw = (self.wl.get("config") or {}).get(full)
        # (a variable of the environment for the single key stands in for what the engine does not set)
        one = (self.wl.get("config_env") or {}).get("".join(c if c in "_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" else c.upper() if c.isalpha() and c.isascii()
                                                            else "_" for c in full))
        if raw is None:
            raw = one
        kind = m.replace("get", "").replace("require", "").replace("_secret", "").strip("_")
        v = raw
        if raw is not None:
            try:
                if kind == "bool":
                    v = {"true": True, "True": True, "false": False, "False": False}[raw]
                elif kind == "int":
                    v = int(raw)
                elif kind == "float":
                    v = float(raw)
                elif kind == "object":
                    v = json.loads(raw)
            except (KeyError, ValueError):
                raise ProgError("config %s is not a valid %s" % (full, kind))
        if v is None:
            if m.startswith("require"):
                raise ProgError("config %s is missing" % full)
            v = c.get("d")
            if v is None:
                return None
        return MV(v, True) if secret else v

    def stack_output(self, r, name, require):
        outs, names = r.outs["outputs"], r.outs["secret_output_names"]
        o = self.all_([name, outs])
        if o.err:
            return o
        if has_unk(name.val) or has_unk(names.val):
            sec = outs.sec
        elif names.val is None:
            sec = outs.sec
        else:
            sec = name.val in names.val
        if has_unk(o.val):
            return MV(UNK, sec, o.deps)
        if require and name.val not in outs.val:
            self.errors.append("%s has no output %s" % (r.name, name.val))
            return MV(None, err="missing output", deps=o.deps)
        return MV(outs.val.get(name.val), sec, o.deps)

    def deep(self, v):
        if isinstance(v, MV):
            if v.err:
                return v
            if v.val is UNK:
                return v
            i = self.deep(v.val)
            return MV(i.val, v.sec or i.sec, v.deps | i.deps, i.err)
        if isinstance(v, MAwait):
            if v.err:
                return MV(None, err=v.err)
            i = self.deep(v.val)
            return MV(i.val, i.sec, i.deps | v.waits, i.err)
        if isinstance(v, MArgs):
            o = self.alld(v.f)
            if o.err:
                return o
            return MV(UNK if has_unk(o.val) else MArgs(v.cls, o.val), o.sec, o.deps)
        if isinstance(v, TObj):
            return MV(v)
        if isinstance(v, dict) and v:
            return self.alld(v)
        if isinstance(v, list) and v:
            return self.all_(v)
        return MV(v)

    def all_(self, xs):
        ds = [self.deep(x) for x in xs]
        deps = frozenset().union(*[d.deps for d in ds]) if ds else frozenset()
        for d in ds:
            if d.err:
                return MV(None, err=d.err, deps=deps)
        return MV([d.val for d in ds], any(d.sec for d in ds), deps)

    def alld(self, xs):
        o = self.all_(list(xs.values()))
        if o.err:
            return o
        return MV(dict(zip(xs.keys(), o.val)), o.sec, o.deps)

    def apply(self, site, o, F, env, flow):
        self.cb.setdefault(site, [])
        if o.err:
            return MV(None, err=o.err, deps=o.deps)
        if has_unk(o.val):
            return MV(UNK, o.sec, o.deps)
        self.cb[site].append(canon(o.val))
        env2 = dict(env)
        env2["$"] = o.val
        f2 = Flow(flow, o.deps)
        if makes_lookup(F.get("ops", [])):
            node = CbNode()
            self.call_nodes.append(node)
            o = MV(o.val, o.sec, o.deps | {("wait", node)})
        else:
            node = None
        try:
            self.ops(F.get("ops", []), env2, f2, None)
            if F.get("raise"):
                raise ProgError(F["raise"])
            r = self.ev(F["ret"], env2, f2)
        except ProgError as e:
            self.errors.append("callback raises: %s" % e)
            return MV(None, err=str(e), deps=o.deps)
        finally:
            if node is not None:
                node.hard = f2.ctx | f2.need
        if isinstance(r, MV):
            return MV(r.val, o.sec or r.sec, o.deps | r.deps, r.err)
        if isinstance(r, MAwait):
            if r.err:
                return MV(None, err=r.err, deps=o.deps)
            o = MV(o.val, o.sec, o.deps | r.waits)
            r = r.val
        if F.get("async") is not None:
            pass
        return MV(r, o.sec, o.deps)

    # ------------------------------------------------------------ wire forms
    def wire(self, v, keep=False, tr=None, typ=None):
        """The plain-Python image of what must be sent for this input. Raises CbError on failure. tr renames the keys of
        dicts; with a type, the names are those of the type."""
        if v is UNK:
            return wire.UNKNOWN
        if isinstance(v, list):
            t = typ[1] if isinstance(typ, tuple) and typ[0] == "list" else None
            return [self.wire(x, keep, tr, t) for x in v]
        if isinstance(v, MBad):
            raise CbError("a value that cannot be sent")
        if isinstance(v, MAwait):
            if v.err:
                raise CbError(v.err)
            return self.wire(v.val, keep, tr, typ)
        if isinstance(v, MRes):
            if v.err:
                raise CbError("resource %s failed" % v.name)
            if self.feat("resourceReferences"):
                r = {wire.SIG: wire.RESREF, "urn": self.wire(v.urnv)}
                if v.custom:
                    r["id"] = self.wire(v.id)
                return r
            return self.wire(v.id if v.custom else v.urnv)
        if isinstance(v, MAsset):
            if v.arch:
                return {wire.SIG: wire.ARCHIVE, v.kind: self.wire(v.what, False, tr)}
            return {wire.SIG: wire.ASSET, v.kind: v.what}
        if isinstance(v, MV):
            if v.err:
                raise CbError(v.err)
            unk = has_unk(v.val)
            inner = None if unk else self.wire(v.val, False, tr, typ)
            if keep and self.feat("outputValues"):
                r = {wire.SIG: wire.OUTVAL}
                if not unk:
                    r["value"] = inner
                if v.sec:
                    r["secret"] = True
                deps = self.deps_of(v)
                r["dependencies"] = ("deps", deps, self.cur_before)
                return r
            if unk:
                return wire.UNKNOWN
            if v.sec and self.feat("secrets"):
                return wire.secret(inner)
            return inner
        if isinstance(v, MArgs):
            c = schema.CLASSES[v.cls]
            return {c[k][0]: self.wire(x, keep, tr, c[k][1]) for k, x in v.f.items() if x is not None}
        if isinstance(v, MEnum):
            return str.__str__(v)
        if isinstance(v, dict):
            if isinstance(typ, tuple) and typ[0] == "obj":
                c = schema.CLASSES[typ[1]]
                ty = {x[0]: x[1] for x in c.values()}
                out = {}
                for k, x in v.items():
                    n = c[k][0] if k in c else k
                    out[n] = self.wire(x, keep, tr, ty.get(n))
                return out
            if isinstance(typ, tuple) and typ[0] == "map":
                return {k: self.wire(x, keep, tr, typ[1]) for k, x in v.items()}
            if typ is not None:
                return {k: self.wire(x, keep, tr) for k, x in v.items()}
            return {(tr.get(k, k) if tr else k): self.wire(x, keep, tr) for k, x in v.items()}
        return v

    def deps_of(self, v):
        """Resources whose outputs flow into this input."""
        if isinstance(v, MV):
            if v.err:
                raise CbError(v.err)
            d = nowait(v.deps)
            if not has_unk(v.val):
                d = d | self.deps_of(v.val)
            return d
        if isinstance(v, list):
            return frozenset().union(*[self.deps_of(x) for x in v]) if v else frozenset()
        if isinstance(v, dict):
            return frozenset().union(*[self.deps_of(x) for x in v.values()]) if v else frozenset()
        if isinstance(v, MAwait):
            if v.err:
                raise CbError(v.err)
            return self.deps_of(v.val)
        if isinstance(v, MRes):
            return frozenset([v])
        if isinstance(v, MArgs):
            return self.deps_of(v.f)
        if isinstance(v, MAsset):
            return self.deps_of(v.what) if v.arch else frozenset()
        return frozenset()

    def expand(self, deps, before=None, seen=None):
        """(must, may): sets of MRes / ('urn', u) that stand for these dependencies on the wire."""
        lo, hi = set(), set()
        for d in deps:
            if isinstance(d, tuple):
                if d[0] != "wait":
                    lo.add(d)
                    hi.add(d)
            elif d.kind == "comp":
                for c in d.children:
                    l2, h2 = self.expand([c], before)
                    hi |= h2
                    if before is None or c in before:
                        lo |= l2
            else:
                lo.add(d)
                hi.add(d)
        return lo, hi

    def flat(self, v, direct=True):
        """Every resource this input mentions; with direct=False only those whose data it needs."""
        if isinstance(v, MV):
            d = {x[1] if isinstance(x, tuple) else x for x in v.deps if not isinstance(x, tuple) or x[0] == "wait"}
            return d if v.err or v.val is UNK else d | self.flat(v.val, direct)
        if isinstance(v, MAwait):
            return set() if v.err else self.flat(v.val, direct) | {x[1] for x in v.waits}
        if isinstance(v, list):
            return set().union(*[self.flat(x, direct) for x in v]) if v else set()
        if isinstance(v, dict):
            return set().union(*[self.flat(x, direct) for x in v.values()]) if v else set()
        if isinstance(v, MRes):
            return {v} if direct else set()
        if isinstance(v, MArgs):
            return self.flat(v.f, direct)
        if isinstance(v, MAsset) and v.arch:
            return self.flat(v.what, direct)
        return set()

    def closure(self, start, skip=frozenset()):
        """Everything that has to be there before `start` is."""
        seen, todo = set(), list(start)
        while todo:
            x = todo.pop()
            if x in seen or x in skip or isinstance(x, tuple):
                continue
            seen.add(x)
            todo += list(x.hard) + list(self.expand(x.soft)[1])
        return seen

    def wait_cycles(self):
        """(mixed, selfref): does the program contain a circular wait that needs both a dependency on a component
        (which stands for the component's children) and a plain data dependency; does it contain any circle at all."""
        hard, soft = {}, {}
        nodes = self.order + self.call_nodes
        for r in nodes:
            hard[r] = list(r.hard)
            soft[r] = list(self.expand(r.soft)[1])
        index, low, on, stack, comp, n = {}, {}, set(), [], {}, [0]

        def visit(v):
            work = [(v, iter(hard.get(v, []) + [x for x in soft.get(v, []) if not isinstance(x, tuple)]))]
            index[v] = low[v] = n[0]
            n[0] += 1
            stack.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                for y in it:
                    if y not in index:
                        index[y] = low[y] = n[0]
                        n[0] += 1
                        stack.append(y)
                        on.add(y)
                        work.append((y, iter(hard.get(y, []) + [z for z in soft.get(y, []) if not isinstance(z, tuple)])))
                        break
                    if y in on:
                        low[x] = min(low[x], index[y])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == index[x]:
                        while True:
                            y = stack.pop()
                            on.discard(y)
                            comp[y] = x
                            if y is x:
                                break
        for r in nodes:
            if r not in index:
                visit(r)
        mixed = any(comp.get(y) is comp[r] for r in nodes for y in hard[r])
        circ = mixed or any(comp.get(y) is comp[r] for r in nodes for y in soft[r] if not isinstance(y, tuple))
        return mixed, circ

    def refs_answerable(self, circ):
        """The engine can only refer to resources whose registration precedes that of the resource it answers."""
        for r in self.order:
            want = [s[1] for s in ((self.plans.get(r.name) or {}).get("out") or {}).values() if s[0] == "ref"]
            if not want:
                continue
            if circ:
                return False
            seen, todo = set(), [r]
            while todo:
                x = todo.pop()
                if x in seen or isinstance(x, tuple):
                    continue
                seen.add(x)
                todo += list(x.hard) + list(self.expand(x.soft)[0])
            if any(w == r.name or self.res.get(w) not in seen for w in want):
                return False
        return True

    # ------------------------------------------------------------ from the wire
    def from_wire(self, w):
        """(value, secret): secrets are pulled up to the property, references become ids or URNs."""
        if isinstance(w, dict):
            s = w.get(wire.SIG)
            if s == wire.SECRET:
                v, _ = self.from_wire(w["value"])
                return v, True
            if s == wire.RESREF:
                if refs.pick(refs.typ_of(w["urn"]), w.get("packageVersion") or ""):
                    return self.revive(w["urn"], w.get("packageVersion") or ""), False
                if "id" in w:
                    return (self.from_wire(wire.UNKNOWN)[0] if w["id"] == "" else self.from_wire(w["id"])[0]), False
                return w["urn"], False
            if s == wire.ASSET:
                k = [x for x in w if x != wire.SIG][0]
                return MAsset(k, w[k]), False
            if s == wire.ARCHIVE:
                k = [x for x in w if x != wire.SIG][0]
                return MAsset(k, self.from_wire(w[k])[0], True), False
            out, sec = {}, False
            for k, x in w.items():
                if k.startswith("__") and k != "__provider":
                    continue
                v, s2 = self.from_wire(x)
                if v is None and not s2:
                    continue
                sec = sec or s2
                out[k] = v
            return out, sec
        if isinstance(w, list):
            vs = [self.from_wire(x) for x in w]
            return [v for v, _ in vs], any(s for _, s in vs)
        if w == wire.UNKNOWN:
            return (UNK if self.preview else None), False
        return w, False

    def revive(self, urn, version):
        """A reference to a resource of a registered module becomes that resource, its state read from the engine."""
        typ = refs.typ_of(urn)
        kind, ver = refs.pick(typ, version)
        r = MRes("%s@%s:%s" % (urn.split("::")[3], ver, typ), {"T": "get", "K": "remote", "P": "provider"}[kind], typ)
        plan = self.plans.get("get:" + urn) or {}
        r.urn, r.attempted = urn, True
        r.urnv = MV(urn, deps=[r])
        if r.custom:
            r.id = MV(plan.get("id") or UNK, deps=[r])
        if kind == "P":
            r.package = typ.split(":")[2]
        for p in refs.PROPS[kind]:
            spec = (plan.get("out") or {}).get(p)
            w = None if spec is None else {"v": spec[1], "sec": wire.secret(spec[1]), "unk": wire.UNKNOWN if self.preview else spec[1]}[spec[0]]
            v, sec = (None, False) if w is None or w == wire.UNKNOWN else self.from_wire(w)
            r.outs[p] = MV(UNK if self.preview and v is None else v, sec, [r])
        return r

    # ------------------------------------------------------------ resources
    def echoed(self, w):
        return strip(w)

    def arg_text(self, w):
        return wire.canon(wire.nonull(strip(w)))

    def urn_for(self, r):
        q = r.type
        p = r.parent
        if p is not None:
            q = p.urn.split("::")[2] + "$" + r.type
        return "urn:pulumi:%s::%s::%s::%s" % (self.stack, self.project, q, r.name)

    def ref(self, p):
        if p.err:
            raise CbError("provider %s failed" % p.name)
        i = p.id.val
        return "%s::%s" % (p.urn, wire.UNKNOWN if i is UNK else i)

    def alias_urn(self, a, r):
        """The URN an alias stands for (documented rules of Alias)."""
        if isinstance(a, str):
            return a
        if isinstance(a, dict):
            name = a.get("name", r.name)
            typ = a.get("type_", r.type)
            stack, proj = a.get("stack", self.stack), a.get("project", self.project)
            if "parent" in a:
                par = None if a["parent"] is None else self.res[a["parent"]]
            else:
                par = r.parent
            if par is None:
                return "urn:pulumi:%s::%s::%s::%s" % (stack, proj, typ, name)
            if par.err:
                raise CbError("alias parent failed")
            return par.urn[: par.urn.rfind("::")] + "$" + typ + "::" + name
        raise ValueError(a)

    def inherited(self, cname, pname, palias, ctype):
        n = cname
        if cname.startswith(pname):
            n = palias[palias.rfind("::") + 2:] + cname[len(pname):]
        return palias[: palias.rfind("::")] + "$" + ctype + "::" + n

    def eval_opts(self, o, env, flow):
        """Options as the resource will see them: resources and inputs instead of expressions, lists for lists."""
        d = {}
        for k, v in o.items():
            if v is None or k.startswith("_"):
                continue
            if k in ("parent", "provider"):
                d[k] = self.res[v]
            elif k == "providers":
                d[k] = [self.res[p] for p in v]
            elif k == "depends_on":
                d[k] = [self.ev(v, env, flow)]
            elif k == "aliases":
                d[k] = [a if not isinstance(a, list) else ("e", self.ev(a, env, flow)) for a in v]
            elif k == "id":
                d[k] = self.ev(v, env, flow)
            else:
                d[k] = list(v) if isinstance(v, list) else v
        return d

    def transform(self, t, r, props, o, env, flow):
        """One transformation, as interp._transformation applies it."""
        if t.get("types") is not None and r.type not in t["types"]:
            return props, o
        props = dict(props)
        if t.get("acc") and not r.style:
            old = props.get("t0")
            props["t0"] = (old if isinstance(old, str) else "") + "%s(%s);" % (t["id"], r.name)
        w = t.get("wrap")
        if w and w in props:
            d = self.deep(props[w])
            props[w] = MV(d.val, True, d.deps, d.err)
        if t.get("fix"):
            if not o.get("depends_on") and o.get("id") is None and o.get("urn") is None:
                o = dict(self.eval_opts(t["opts"], {}, flow), **({"parent": o["parent"]} if o.get("parent") is not None else {}))
        elif t.get("opts"):
            o = merge_opts(o, self.eval_opts(t["opts"], {}, flow))
        return props, o

    def do_res(self, op, env, flow, parent):
        kind = op["kind"]
        r = MRes(op["n"], kind, op["type"])
        r.style = op.get("style")
        o = self.eval_opts(op.get("opts") or {}, env, flow)
        if parent is not None and "parent" not in o:
            o["parent"] = parent
        if op.get("use"):
            o = merge_opts(env[op["use"]], o)
        props = {k: self.ev(e, env, flow) for k, e in (op.get("props") or {}).items()}
        self.res[op["n"]] = r
        self.order.append(r)
        r.flow_pos = (flow, len(flow.items))
        r.before = flow.before(len(flow.items))
        flow.items.append(r)
        r.req_urn = o.get("urn")
        if kind == "provider":
            r.package = op["type"].split(":")[-1]
        r.parent = o.get("parent")
        # transformations
        r.trans = list(o.get("transformations") or []) + list((r.parent or self.stack_res).trans)
        for t in r.trans:
            props, o = self.transform(t, r, props, o, env, flow)
        # options
        pkg = op["type"].split(":")[0] if op["type"].count(":") == 2 else None
        own = {p.package: p for p in o.get("providers") or []}
        eff = None
        own_p = dict(own)
        if o.get("provider"):
            eff = o["provider"]
            if pkg is not None and pkg not in own:
                own_p[pkg] = eff
        elif pkg in own:
            eff = own[pkg]
        elif r.parent is not None:
            eff = r.parent.providers.get(pkg)
        base = dict(r.parent.providers) if r.parent is not None else {}
        base.update(own_p)
        r.providers = base
        r.provider = eff if r.custom else None
        prot = o.get("protect")
        if prot is None and r.parent is not None:
            prot = r.parent.protect
        r.protect = bool(prot)
        if r.parent is not None:
            r.parent.children.append(r)
        r.prop_names = list(props)
        deps_raw = o.get("depends_on") or []
        id_raw = o.get("id")
        hard = set(flow.ctx) | self.flat(props) | self.flat(id_raw)
        for x in o.get("aliases") or []:
            hard |= self.flat(x[1]) if isinstance(x, tuple) else set()
        for d in deps_raw:
            hard |= self.flat(d, False)
        hard |= {x for x in [r.parent, eff] + (list(o.get("providers") or []) if r.remote else []) if x is not None}
        r.hard = hard - {r}
        r.soft = self.flat(props) | self.flat(deps_raw)
        r.version, r.pdurl = o.get("version"), o.get("plugin_download_url")
        req = {"type": r.type, "name": r.name, "custom": r.custom, "remote": r.remote}
        try:
            self._prepare(r, op, o, props, eff, req)
        except CbError as e:
            r.err = str(e)
            self.errors.append("resource %s cannot be prepared: %s" % (r.name, e))
        if r.err is None:
            r.attempted = True
            r.req = req
            self._respond(r, op, req, id_raw)
        if r.err is not None:
            e = "resource %s failed" % r.name
            r.urnv = MV(None, err=e, deps=[r])
            if r.custom:
                r.id = MV(None, err=e, deps=[r])
            r.outs = {k: MV(None, err=e, deps=[r]) for k in props}
        # the component's constructor goes on synchronously
        if kind == "comp":
            env2 = dict(env)
            try:
                self.ops(op.get("children") or [], env2, flow, r)
            finally:
                pass
            if op.get("outputs") is not None:
                outs = {k: self.ev(e, env2, flow) for k, e in op["outputs"].items()}
                try:
                    w = {k: self.wire(v) for k, v in outs.items()}
                    if r.err:
                        raise CbError(r.err)
                    self.comp_outputs[r.name] = {k: v for k, v in w.items() if v is not None}
                    p = self.plans.get("outputs:" + r.name) or {}
                    if p.get("err") or p.get("hang_death"):
                        self.errors.append("outputs of %s fail" % r.name)
                except CbError as e:
                    self.comp_outputs[r.name] = None
                    self.errors.append("outputs of %s: %s" % (r.name, e))

    def _prepare(self, r, op, opts, props, eff, req):
        # (reading by URN takes no options, so no parent either)
        parent = self.stack_res if r.kind == "get" else (r.parent or self.stack_res)
        if parent.err:
            raise CbError("parent %s failed" % parent.name)
        self.cur_before = r.before
        expl = frozenset()
        if r.kind != "get":
            for raw in opts.get("depends_on") or []:
                expl |= self._depends(raw)
        for d in expl:
            lo, hi = self.expand([d], r.before)
            for x in hi:
                if isinstance(x, MRes) and x.err and (x in lo):
                    raise CbError("dependency %s failed" % x.name)
                if isinstance(x, MRes) and x.err:
                    r.maybe = True
        r.deps_explicit = expl
        obj, pd = {}, {}
        names = schema.py2pu(r.style)
        tr = schema.LEGACY if r.style == "legacy" else None
        for k, v in props.items():
            w = self.wire(v, r.remote, tr, schema.prop_type(r.style, k))
            d = self.deps_of(v)
            k = names.get(k, k)
            if w is not None:
                obj[k] = w
                pd[k] = d
            for x in self.expand(d, r.before)[1]:
                if isinstance(x, MRes) and x.err:
                    if x in self.expand(d, r.before)[0]:
                        raise CbError("dependency %s failed" % x.name)
                    r.maybe = True
        r.deps_prop = pd
        req["object"] = obj
        req["parent"] = parent.urn
        if r.kind == "get":
            return
        r.urn = self.urn_for(r)
        req["urn"] = r.urn
        req["provider"] = ""
        req["providers"] = {}
        if r.custom and eff is not None:
            req["provider"] = self.ref(eff)
        if r.remote:
            req["providers"] = {p.package: self.ref(p) for p in opts.get("providers") or []}
            if eff is not None:
                req["providers"][eff.package] = self.ref(eff)
        # aliases
        own = []
        for a in opts.get("aliases") or []:
            if isinstance(a, tuple):
                o = self.deep(a[1])
                if o.err:
                    raise CbError(o.err)
                own.append(o.val)
            else:
                own.append(self.alias_urn(a, r))
        al = list(own)
        if r.parent is not None:
            for pa in r.parent.aliases:
                al.append(self.inherited(r.name, r.parent.name, pa, r.type))
                for u in own:
                    n, t = u.split("::")[3], u.split("::")[2].split("$")[-1]
                    al.append(self.inherited(n, r.parent.name, pa, t))
        r.aliases = al
        req["aliases"] = sorted(set(al))
        inames = {k: v for k, v in names.items() if not k.startswith("out_")}   # (typed resources: the names of inputs)
        req["protect"] = r.protect
        req["ignore"] = [inames.get(x, x) for x in opts.get("ignore_changes") or []]
        req["version"] = opts.get("version") or ""
        req["pdurl"] = opts.get("plugin_download_url") or ""
        req["aso"] = [names.get(x, x) for x in opts.get("additional_secret_outputs") or []]
        req["replace"] = [inames.get(x, x) for x in opts.get("replace_on_changes") or []]
        req["retain"] = bool(opts.get("retain_on_delete"))
        req["importId"] = opts.get("import_") or ""
        req["dbr"] = bool(opts.get("delete_before_replace"))
        req["dbr_defined"] = opts.get("delete_before_replace") is not None
        ct = opts.get("custom_timeouts") or {}
        req["timeouts"] = [ct.get("create", ""), ct.get("update", ""), ct.get("delete", "")]
        if r.kind == "read":
            req["id"] = self.wire(opts.get("id"))

    def _depends(self, raw):
        deps = set()
        if isinstance(raw, MAwait):
            if raw.err:
                raise CbError(raw.err)
            items = raw.val
        elif isinstance(raw, MV):
            if raw.err:
                raise CbError(raw.err)
            deps |= nowait(raw.deps)
            items = [] if has_unk(raw.val) else raw.val
        else:
            items = raw
        if not isinstance(items, list):
            items = [items]
        for i in items:
            o = self.deep(i)
            if o.err:
                raise CbError(o.err)
            deps |= nowait(o.deps)
            if not has_unk(o.val) and isinstance(o.val, MRes):
                deps.add(o.val)
            elif not has_unk(o.val):
                self.invalid.append("depends on something that is not a resource")
        return frozenset(deps)

    def _respond(self, r, op, req, id_raw):
        key = r.name if r.kind != "get" else "get:" + op["opts"]["urn"]
        plan = self.plans.get(key) or {}
        if plan.get("err") or plan.get("hang_death") or plan.get("failures"):
            r.err = "engine"
            self.errors.append("engine fails %s" % r.name)
            return
        if r.kind == "get":
            r.urn = op["opts"]["urn"]
            i = plan.get("id", "")
            r.id = MV(i if i else UNK, deps=[r])
        elif r.kind == "read":
            o = self.deep(id_raw)
            r.id = MV(UNK if has_unk(o.val) else req["id"], deps=[r])
        elif r.custom:
            i = plan.get("id", "id-" + r.name)
            if self.preview and not plan.get("preview_id"):
                i = ""
            r.id = MV(i if i else UNK, deps=[r])
        r.urnv = MV(r.urn, deps=[r])
        # what the engine answers
        resp = {}
        obj = {k: v for k, v in req["object"].items()}
        for p, spec in (plan.get("out") or {}).items():
            if spec[0] == "v":
                resp[p] = spec[1]
            elif spec[0] == "echo":
                if spec[1] in obj:
                    resp[p] = self.echoed(obj[spec[1]])
            elif spec[0] == "sec":
                resp[p] = wire.secret(spec[1])
            elif spec[0] == "unk":
                resp[p] = wire.UNKNOWN if self.preview else spec[1]
            elif spec[0] == "ref":
                t = self.res[spec[1]]
                resp[p] = {wire.SIG: wire.RESREF, "urn": t.urn}
                if t.custom:
                    resp[p]["id"] = "" if t.id.val is UNK else t.id.val
        if plan.get("echo_all"):
            for k, v in obj.items():
                resp.setdefault(k, self.echoed(v))
        names, back = schema.py2pu(r.style), schema.pu2py(r.style)
        legacy = (self.wl.get("proc_env") or {}).get("PULUMI_ENABLE_LEGACY_APPLY") == "true"
        if plan.get("badout"):
            # an answer that cannot be understood: the resource exists, its outputs do not
            self.errors.append("unintelligible answer for %s" % r.name)
            r.outs = {py: MV(None, err="bad answer", deps=[r]) for py in r.prop_names}
            return
        for py in r.prop_names:
            p = names.get(py, "secretOutputNames" if r.style == "sref" and py == "secret_output_names" else py)
            pd = frozenset([r]) | frozenset(("urn", u) for u in (plan.get("pdeps") or {}).get(p, ()))
            if r.kind in ("read", "get"):
                pd = frozenset([r])
            have = False
            if p in resp and resp[p] != wire.UNKNOWN:
                v, sec = self.from_wire(resp[p])
                if v is not None or sec:
                    have = True
            if not have and (not self.preview or legacy and resp.get(p) != wire.UNKNOWN) and p in obj:
                v, sec = self.from_wire(strip(obj[p]))
                have = True
            if have:
                v = xlate(v, r.style, back, schema.prop_type(r.style, py))
                r.outs[py] = MV(UNK if (self.preview and v is None) else v, sec, pd)
            else:
                r.outs[py] = MV(UNK if self.preview else None, False, pd)

    # ------------------------------------------------------------ invokes, calls
    def do_invoke(self, op, env, flow):
        args = {k: self.ev(e, env, flow) for k, e in (op.get("args") or {}).items()}
        o = dict(env[op["use"]]) if op.get("use") else {}
        o.update({k: op[k] for k in ("provider", "parent", "version", "plugin_download_url") if op.get(k)})
        need = self.flat(args) | {self.res[o[k]] for k in ("provider", "parent") if o.get(k)}
        flow.need |= need
        if flow.parent is not None and any(isinstance(x, CbNode) for x in self.closure(need, self.closure(flow.ctx))):
            self.nested_wait = True
        try:
            w = {k: self.wire(v) for k, v in args.items()}
            prov = ""
            if o.get("provider"):
                prov = self.ref(self.res[o["provider"]])
            elif o.get("parent"):
                par = self.res[o["parent"]]
                p = par.providers.get(op["tok"].split(":")[0])
                prov = self.ref(p) if p is not None else ""
        except CbError as e:
            # an argument that failed fails the program even if the exception is caught
            self.errors.append("invoke args: %s" % e)
            if op.get("catch"):
                env[op["x"]] = "caught"
                return
            raise ProgError("invoke args: %s" % e)
        w = {k: v for k, v in w.items() if v is not None}
        self.invokes.append({"tok": op["tok"], "args": w, "provider": prov, "version": o.get("version") or "",
                             "pdurl": o.get("plugin_download_url") or ""})
        plan = self.plans.get("invoke:" + op["tok"]) or {}
        if plan.get("hang_death"):
            raise ProgError("invoke %s: engine died" % op["tok"])
        if plan.get("err") or plan.get("failures"):
            if op.get("catch"):
                env[op["x"]] = "caught"
                return
            raise ProgError("invoke %s failed" % op["tok"])
        ret = {"r": "I(%s|%s)" % (op["tok"], self.arg_text(w))}
        ret.update({k: self.from_wire(v)[0] for k, v in (plan.get("ret") or {}).items()})
        env[op["x"]] = ret
        self.inv_results[op["x"]] = canon(ret)

    def do_call(self, op, env, flow):
        args = {k: self.ev(e, env, flow) for k, e in (op.get("args") or {}).items()}
        tok = op["tok"]
        self.cur_before = flow.before(len(flow.items))
        node = CallNode()
        node.soft = self.flat(args) | ({self.res[op["r"]]} if op.get("r") else set())
        node.hard = (node.soft | set(flow.ctx)) - {None}
        if op.get("r") and self.res[op["r"]].provider is not None:
            node.hard.add(self.res[op["r"]].provider)
        self.call_nodes.append(node)
        r = self.do_call2(op, args, tok)
        return MV(r.val, r.sec, r.deps | {("wait", node)}, r.err)

    def do_call2(self, op, args, tok):
        try:
            w = {k: self.wire(v, keep=True) for k, v in args.items()}
            w = {k: v for k, v in w.items() if v is not None}
            d = {k: self.deps_of(v) for k, v in args.items() if k in w}
            prov = ""
            if op.get("r"):
                res = self.res[op["r"]]
                if res.provider is not None:
                    prov = self.ref(res.provider)
        except CbError as e:
            self.errors.append("call %s: %s" % (tok, e))
            return MV(None, err=str(e))
        ver = self.res[op["r"]].version or "" if op.get("r") else ""
        pdurl = self.res[op["r"]].pdurl or "" if op.get("r") else ""
        self.calls.append({"tok": tok, "args": w, "argdeps": d, "provider": prov, "version": ver, "pdurl": pdurl})
        plan = self.plans.get("call:" + tok) or {}
        if plan.get("err") or plan.get("failures") or plan.get("hang_death"):
            self.errors.append("call %s fails" % tok)
            return MV(None, err="call failed")
        resp = {}
        for p, spec in (plan.get("out") or {}).items():
            if spec[0] == "v":
                resp[p] = spec[1]
            elif spec[0] == "echo":
                if spec[1] in w:
                    resp[p] = strip(w[spec[1]])
            elif spec[0] == "sec":
                resp[p] = wire.secret(spec[1])
            elif spec[0] == "unk":
                resp[p] = wire.UNKNOWN if self.preview else spec[1]
        val, sec = {}, False
        for p, x in resp.items():
            v, s = self.from_wire(x)
            if v is None and not s:
                continue
            sec = sec or s
            val[p] = v
        deps = frozenset(("urn", u) for us in (plan.get("pdeps") or {}).values() for u in us)
        if has_unk(val):
            return MV(UNK, sec, deps)
        return MV(val if resp else None, sec, deps)

    # ------------------------------------------------------------ stack outputs
    def massage(self, v, seen=()):
        """Exported values become plain data: resources become their public fields. What is met again inside itself is not followed:
        of a resource its URN remains, of anything else nothing."""
        if isinstance(v, (MV, MRes)):
            if any(v is x for x in seen):
                return v.urnv if isinstance(v, MRes) else None
            seen = seen + (v,)
        if isinstance(v, MV):
            if v.err or v.val is UNK:
                return v
            if has_unk(v.val):
                return MV(UNK, v.sec, v.deps)
            i = self.massage(v.val, seen)
            if isinstance(i, MV):
                return MV(i.val, v.sec or i.sec, v.deps | i.deps, i.err)
            return MV(i, v.sec, v.deps)
        if isinstance(v, MAwait):
            if v.err:
                return v
            # a coroutine is sent as whatever it produces, a future as an output would be
            return v if v.coro else self.massage(self.deep(v), seen)
        if isinstance(v, MRes):
            d = {"urn": v.urnv}
            if v.custom:
                d["id"] = v.id
            elif v.kind in ("comp", "remote"):
                d["id"] = None
            if v.kind == "provider":
                d["package"] = v.package
            for k, o in v.outs.items():
                d[k] = o
            d.update(v.attrs)
            d = {k: (self.massage(o, seen) if o is not None else None) for k, o in d.items() if not k.startswith("_")}
            if self.preview:
                d["@isPulumiResource"] = True
            return d
        if isinstance(v, MAsset):
            return self.massage({v.kind: v.what}, seen)
        if isinstance(v, MArgs):
            return self.massage(v.f, seen)
        if isinstance(v, dict):
            return {k: self.massage(x, seen) for k, x in v.items() if not k.startswith("_")}
        if isinstance(v, list):
            return [self.massage(x, seen) for x in v]
        return v


OPT_LISTS = ("depends_on", "ignore_changes", "replace_on_changes", "aliases", "additional_secret_outputs", "transformations", "providers")


def merge_opts(a, b):
    """The documented rules of ResourceOptions.merge: collections are joined, the rest is overridden unless absent."""
    d = dict(a)
    for k, v in b.items():
        if v is None:
            continue
        d[k] = list(d[k]) + list(v) if k in OPT_LISTS and d.get(k) is not None else v
    return d


def xlate(v, style, back, typ):
    """An answered value with the names and types the resource's class declares."""
    if style == "legacy":
        if isinstance(v, dict):
            return {back.get(k, k): xlate(x, style, back, None) for k, x in v.items()}
        if isinstance(v, list):
            return [xlate(x, style, back, None) for x in v]
        return v
    if style == "sref":
        if isinstance(v, dict):
            return {back.get(k, k): xlate(x, style, back, None) for k, x in v.items()}
        return v
    if style != "typed" or typ is None:
        return v
    if isinstance(v, dict):
        if isinstance(typ, tuple) and typ[0] == "obj":
            c = schema.CLASSES[typ[1]]
            return TObj(typ[1], {k: xlate(v.get(x[0]), style, back, x[1]) for k, x in c.items() if v.get(x[0]) is not None})
        if isinstance(typ, tuple) and typ[0] == "map":
            return {k: xlate(x, style, back, typ[1]) for k, x in v.items()}
        return v
    if isinstance(v, list):
        t = typ[1] if isinstance(typ, tuple) and typ[0] == "list" else None
        return [xlate(x, style, back, t) for x in v]
    if typ == "color" and isinstance(v, str):
        return MEnum(v)
    return v


def strip(w):
    """Output-value envelopes as the engine would echo them."""
    if isinstance(w, dict):
        if w.get(wire.SIG) == wire.OUTVAL:
            if "value" not in w:
                return wire.UNKNOWN
            x = strip(w["value"])
            return wire.secret(x) if w.get("secret") else x
        return {k: strip(x) for k, x in w.items()}
    if isinstance(w, list):
        return [strip(x) for x in w]
    return w

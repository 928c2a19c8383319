"""Runs a program description against the real SDK through its public API."""
import asyncio
import os
import pathlib
import sys

import semver

import pulumi
import pulumi.runtime
from pulumi import Output

from . import kernel
from . import schema
from . import wire


class UserError(Exception):
    """Raised by the simulated user's program."""


class RT:
    """What one program run observed and created."""

    def __init__(self, wl, tag=""):
        self.wl, self.tag = wl, tag
        self.res = {}
        self.fired = []      # (site, canonical parameter)
        self.invoked = []    # (var, canonical result)
        self.caught = []
        self.sim = kernel.SIM
        self.created = []
        self.obs = []


def canon(v):
    if isinstance(v, pulumi.Resource):
        return "<res %s>" % getattr(v, "_vf_name", "?")
    if isinstance(v, (pulumi.Asset, pulumi.Archive)):
        return "<asset>"
    if isinstance(v, Output):
        return "<output>"
    if type(v).__name__ == "Unknown":
        return "<unknown>"
    if isinstance(v, bool):
        return repr(v)
    if TYPED is not None:
        if isinstance(v, TYPED.ColorKind):
            return "<color %s>" % v.value
        for n, c in TYPED.OUTS.items():
            if isinstance(v, c):
                return "<%s>" % n + _fields(v, {k: dict.get(v, k) for k in v}, n)
        for n, c in TYPED.ARGS.items():
            if isinstance(v, c):
                return "<args %s>" % n + canon({k: x for k, x in v.__dict__.items() if x is not None})
    if isinstance(v, (int, float)):
        return repr(wire.norm(v))
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (k, canon(v[k])) for k in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, str):
        return v
    return repr(v)


TYPED = None


def typed():
    """The provider-SDK style classes, loaded when a program uses them."""
    global TYPED
    if TYPED is None:
        from . import typed as t
        TYPED = t
    return TYPED


def _fields(obj, d, cls):
    """An output-type object: its entries must be readable as attributes and have the declared type."""
    out = {}
    for k, x in d.items():
        if x is None:
            continue
        f = schema.CLASSES[cls].get(k)
        s = canon(x)
        if f is None:
            s = "<undeclared>" + s
        elif canon(getattr(obj, k)) != s:
            s += "<attribute differs>"
        elif f[1] == "int" and not isinstance(x, int):
            s += "<not an int>"
        out[k] = s
    return "{" + ",".join("%s:%s" % (k, out[k]) for k in sorted(out)) + "}"


class Custom(pulumi.CustomResource):
    def __init__(self, rt, op, props, opts):
        self._vf_name = op["n"]
        super().__init__(op["type"], op["n"], props, opts)


class Remote(pulumi.ComponentResource):
    def __init__(self, rt, op, props, opts):
        self._vf_name = op["n"]
        super().__init__(op["type"], op["n"], props, opts, True)


class Provider(pulumi.ProviderResource):
    def __init__(self, rt, op, props, opts):
        self._vf_name = op["n"]
        super().__init__(op["type"].split(":")[-1], op["n"], props, opts)


class SRef(pulumi.StackReference):
    def __init__(self, rt, op, props, opts):
        self._vf_name, self._vf_style = op["n"], "sref"
        super().__init__(op["n"], op["props"]["name"][1] if op.get("sname") else None, opts)


class Legacy(pulumi.CustomResource):
    """A resource that translates its property names by hand."""

    def __init__(self, rt, op, props, opts):
        self._vf_name, self._vf_style = op["n"], "legacy"
        super().__init__(op["type"], op["n"], props, opts)

    def translate_input_property(self, prop):
        return schema.LEGACY.get(prop, prop)

    def translate_output_property(self, prop):
        return schema.LEGACY_BACK.get(prop, prop)


class Typed:
    """Makes a resource of provider-SDK style classes."""

    def __new__(cls, rt, op, props, opts):
        return typed().thing(rt, op, props, opts)


class Comp(pulumi.ComponentResource):
    def __init__(self, rt, op, props, opts, env):
        self._vf_name = op["n"]
        rt.res[op["n"]] = self
        super().__init__(op["type"], op["n"], props, opts)
        env2 = dict(env)
        run_ops(rt, op.get("children") or [], env2, self)
        if op.get("outputs") is not None:
            outs = {k: ev(rt, e, env2) for k, e in op["outputs"].items()}
            if op.get("outputs_as_output"):
                outs = Output.from_input(outs)
            self.register_outputs(outs)


async def _peek(rt, what, o):
    return await {"known": o.is_known, "secret": o.is_secret, "future": o.future}[what]()


async def _later(rt, v, fail=None):
    d = rt.sim.latency()
    await asyncio.sleep(d)
    if fail is not None:
        raise UserError(fail)
    return v


MISUSE = {
    "no type": lambda n: pulumi.CustomResource("", n), "type": lambda n: pulumi.CustomResource(5, n),
    "no name": lambda n: pulumi.CustomResource("a:b:C", ""), "name": lambda n: pulumi.CustomResource("a:b:C", 5),
    "options": lambda n: pulumi.CustomResource("a:b:C", n, {}, {"protect": True}),
    "parent": lambda n: pulumi.ComponentResource("a:b:C", n, {}, pulumi.ResourceOptions(parent="a:b:C")),
    "dependency": lambda n: pulumi.CustomResource("a:b:C", n, {}, pulumi.ResourceOptions(depends_on=["a:b:C"])),
    "dependencies": lambda n: pulumi.CustomResource("a:b:C", n, {}, pulumi.ResourceOptions(depends_on=5)),
    "read component": lambda n: pulumi.ComponentResource("a:b:C", n, {}, pulumi.ResourceOptions(id="i")),
    "merge": lambda n: pulumi.ResourceOptions.merge({}, pulumi.ResourceOptions()), "merge2": lambda n: pulumi.ResourceOptions.merge(pulumi.ResourceOptions(), n),
    "imerge": lambda n: pulumi.InvokeOptions.merge({}, pulumi.InvokeOptions()), "imerge2": lambda n: pulumi.InvokeOptions.merge(pulumi.InvokeOptions(), n),
    "result type": lambda n: pulumi.runtime.invoke("a:b:c", {}, None, dict), "method type": lambda n: pulumi.runtime.call("a:b:c/d", {}, None, dict),
    "asset": lambda n: pulumi.StringAsset(5), "asset file": lambda n: pulumi.FileAsset(5), "asset URI": lambda n: pulumi.RemoteAsset(5),
    "archive": lambda n: pulumi.AssetArchive(5), "archive key": lambda n: pulumi.AssetArchive({5: pulumi.StringAsset("a")}),
    "archive value": lambda n: pulumi.AssetArchive({"a": "a"}), "archive file": lambda n: pulumi.FileArchive(5), "archive URI": lambda n: pulumi.RemoteArchive(5),
    "iterate": lambda n: list(Output.from_input([n])), "configuration": lambda n: pulumi.Config(5),
    "number": lambda n: pulumi.Config("none").require_int(n), "decimal": lambda n: pulumi.Config("none").require_float(n),
    "flag": lambda n: pulumi.Config("none").require_bool(n), "object": lambda n: pulumi.Config("none").require_object(n), "text": lambda n: pulumi.Config("none").require(n),
    "secret number": lambda n: pulumi.Config("none").require_secret_int(n), "secret text": lambda n: pulumi.Config("none").require_secret(n),
    "second stack": lambda n: pulumi.runtime.stack.Stack(lambda: None),
    "module again": lambda n: again(pulumi.runtime.register_resource_module, "misused", "mod"),
    "package again": lambda n: again(pulumi.runtime.register_resource_package, "misused"),
}


class Registered(pulumi.runtime.ResourceModule, pulumi.runtime.ResourcePackage):
    def __init__(self, v):
        self.v = v

    def version(self):
        return self.v

    def construct(self, name, typ, urn):
        raise NotImplementedError

    def construct_provider(self, name, typ, urn):
        raise NotImplementedError


def again(register, *where):
    v = semver.VersionInfo.parse("1.2.3")
    register(*where, Registered(v))
    register(*where, Registered(v))


def misuse(k, n):
    MISUSE[k](n)


def run_ops(rt, ops, env, parent):
    for op in ops:
        run_op(rt, op, env, parent)


def res_opts(rt, o, env):
    """ResourceOptions from their description."""
    kw = {}
    for k, v in o.items():
        if k.startswith("_"):
            continue
        if k in ("parent", "provider"):
            kw[k] = rt.res[v]
        elif k == "depends_on":
            kw[k] = ev(rt, v, env)
        elif k == "providers":
            kw[k] = [rt.res[p] for p in v]
            if o.get("_pdict"):
                kw[k] = {p.package: p for p in kw[k]}
        elif k == "aliases":
            al = []
            for a in v:
                if isinstance(a, str):
                    al.append(a)
                elif isinstance(a, dict):
                    d = dict(a)
                    if d.get("parent") is not None:
                        d["parent"] = rt.res[d["parent"]]
                    al.append(pulumi.Alias(**d))
                else:
                    al.append(ev(rt, a, env))
            kw[k] = al
        elif k == "id":
            kw[k] = ev(rt, v, env)
        elif k == "custom_timeouts":
            kw[k] = {a: x for a, x in v.items() if a != "_"} if v.get("_") else pulumi.CustomTimeouts(**v)
        elif k == "transformations":
            kw[k] = [_transformation(rt, t) for t in v]
        else:
            kw[k] = list(v) if isinstance(v, list) else v
    return pulumi.ResourceOptions(**kw)


def _transformation(rt, t):
    fixed = {}

    def fn(args):
        if getattr(args.resource, "_vf_style", None) == "ref":
            return None   # not one of the program's own
        if t.get("types") is not None and args.type_ not in t["types"]:
            return None
        props, opts = args.props, args.opts
        if not t.get("inplace"):
            props = dict(props)
        if t.get("acc") and not getattr(args.resource, "_vf_style", None):
            old = props.get("t0")
            props["t0"] = (old if isinstance(old, str) else "") + "%s(%s);" % (t["id"], args.name)
        w = t.get("wrap")
        if w and w in props:
            props[w] = Output.secret(props[w])
        if t.get("fix"):
            if opts.depends_on or opts.id is not None or opts.urn is not None:
                return pulumi.ResourceTransformationResult(props, opts)
            if opts.parent not in fixed:
                fixed[opts.parent] = pulumi.ResourceOptions.merge(pulumi.ResourceOptions(parent=opts.parent), res_opts(rt, t["opts"], {}))
            opts = fixed[opts.parent]
        elif t.get("opts"):
            opts = pulumi.ResourceOptions.merge(opts, res_opts(rt, t["opts"], {}))
        return pulumi.ResourceTransformationResult(props, opts)
    return fn


def make_opts(rt, op, env, parent):
    o = dict(op.get("opts") or {})
    opts = None
    if o or parent is not None or not op.get("use"):
        opts = res_opts(rt, o, env)
        if parent is not None and "parent" not in o:
            opts.parent = parent
    if op.get("use"):
        shared = env[op["use"]]
        if opts is None:
            return shared
        if op.get("mstyle"):
            return shared.merge(opts)
        return pulumi.ResourceOptions.merge(shared, opts)
    return opts


def inv_opts(rt, o):
    kw = {k: v for k, v in o.items() if k in ("version", "plugin_download_url")}
    for k in ("parent", "provider"):
        if o.get(k):
            kw[k] = rt.res[o[k]]
    return pulumi.InvokeOptions(**kw)


def run_op(rt, op, env, parent):
    k = op["op"]
    if k == "res":
        opts = make_opts(rt, op, env, parent)
        props = {n: ev(rt, e, env) for n, e in (op.get("props") or {}).items()}
        kind = op["kind"]
        rt.created.append(op["n"])
        if kind == "comp":
            rt.res[op["n"]] = Comp(rt, op, props, opts, env)
        elif kind == "remote":
            rt.res[op["n"]] = Remote(rt, op, props, opts)
        elif kind == "provider":
            rt.res[op["n"]] = Provider(rt, op, props, opts)
        else:
            c = {None: Custom, "legacy": Legacy, "typed": Typed, "sref": SRef}[op.get("style")]
            rt.res[op["n"]] = c(rt, op, props, opts)
    elif k == "let":
        env[op["x"]] = ev(rt, op["e"], env)
    elif k == "export":
        pulumi.export(op["k"], ev(rt, op["e"], env))
    elif k == "invoke":
        args = {n: ev(rt, e, env) for n, e in (op.get("args") or {}).items()}
        o = {k: op[k] for k in ("provider", "parent", "version", "plugin_download_url") if op.get(k)}
        opts = inv_opts(rt, o) if o else None
        if op.get("use"):
            shared = env[op["use"]]
            opts = shared if opts is None else (shared.merge(opts) if op.get("mstyle") else pulumi.InvokeOptions.merge(shared, opts))
        try:
            r = pulumi.runtime.invoke(op["tok"], args, opts).value
        except Exception:
            if not op.get("catch"):
                raise
            rt.caught.append(op["x"])
            env[op["x"]] = "caught"
            return
        env[op["x"]] = dict(r) if r is not None else None
        rt.invoked.append((op["x"], canon(r)))
    elif k == "call":
        args = {n: ev(rt, e, env) for n, e in (op.get("args") or {}).items()}
        env[op["x"]] = pulumi.runtime.call(op["tok"], args, rt.res[op["r"]] if op.get("r") else None)
    elif k == "opts":
        o = res_opts(rt, op.get("opts") or {}, env)
        for x in op.get("merge") or []:
            o = env[x].merge(o) if op.get("mstyle") else pulumi.ResourceOptions.merge(env[x], o)
        env[op["x"]] = o
    elif k == "iopts":
        o = inv_opts(rt, op.get("opts") or {})
        for x in reversed(op.get("merge") or []):
            o = env[x].merge(o) if op.get("mstyle") else pulumi.InvokeOptions.merge(env[x], o)
        env[op["x"]] = o
    elif k == "strans":
        pulumi.runtime.register_stack_transformation(_transformation(rt, op["t"]))
    elif k == "log":
        kw = {"resource": rt.res[op["r"]]} if op.get("r") else {}
        if op.get("stream"):
            kw["stream_id"] = op["stream"]
        if op.get("eph"):
            kw["ephemeral"] = True
        getattr(pulumi.log, op["sev"])(op["msg"], **kw)
    elif k == "setattr":
        setattr(rt.res[op["r"]], op["k"], ev(rt, op["e"], env))
    elif k == "raise":
        if op.get("bad"):
            misuse(op["bad"], op["msg"])   # raises, if the library is right
            return
        if op.get("run_error"):
            raise pulumi.RunError(op["msg"])
        raise UserError(op["msg"])
    else:
        raise ValueError(k)


def ev(rt, e, env):
    h = e[0]
    if h == "lit":
        return _copy(e[1])
    if h == "var":
        return env[e[1]]
    if h == "param":
        return env["$"]
    if h == "ptag":
        return "%s<%s>" % (e[1], canon(env["$"]))
    if h == "res":
        return rt.res[e[1]]
    if h == "prop":
        return getattr(rt.res[e[1]], e[2])
    if h == "id":
        return rt.res[e[1]].id
    if h == "urn":
        return rt.res[e[1]].urn
    if h == "coro":
        return _later(rt, ev(rt, e[1], env))
    if h == "fut":
        return asyncio.ensure_future(_later(rt, ev(rt, e[1], env)))
    if h == "peek":
        return _peek(rt, e[1], ev(rt, e[2], env))
    if h == "badval":
        return {"object": object(), "set": {1}, "bytes": b"x", "complex": 1j, "tuple": (1, "a")}[e[1]]
    if h == "failcoro":
        return _later(rt, None, e[1])
    if h == "list":
        return [ev(rt, x, env) for x in e[1]]
    if h == "dict":
        return {k: ev(rt, x, env) for k, x in e[1].items()}
    if h == "asset":
        return {"text": pulumi.StringAsset, "path": pulumi.FileAsset, "uri": pulumi.RemoteAsset}[e[1]](e[2])
    if h == "farch":
        return {"path": pulumi.FileArchive, "uri": pulumi.RemoteArchive}[e[1]](e[2])
    if h == "fpath":
        return pulumi.FileAsset(pathlib.PurePosixPath(e[1]))
    if h == "arch":
        return pulumi.AssetArchive({k: ev(rt, x, env) for k, x in e[1].items()})
    if h == "all":
        return Output.all(*[ev(rt, x, env) for x in e[1]])
    if h == "alld":
        return Output.all(**{k: ev(rt, x, env) for k, x in e[1].items()})
    if h == "from":
        return Output.from_input(ev(rt, e[1], env))
    if h == "concat":
        return Output.concat(*[ev(rt, x, env) for x in e[1]])
    if h == "secret":
        return Output.secret(ev(rt, e[1], env))
    if h == "unsecret":
        return Output.unsecret(ev(rt, e[1], env))
    if h == "idx":
        return ev(rt, e[1], env)[e[2]]
    if h == "apply":
        return _apply(rt, e[1], ev(rt, e[2], env), e[3], env)
    if h == "cfg":
        c = e[1]
        f = getattr(pulumi.Config(c.get("ns")), c["m"])
        return f(c["k"], _copy(c["d"])) if c.get("d") is not None else f(c["k"])
    if h == "info" and e[1].startswith("hidden "):
        return pulumi.runtime.is_config_secret(e[1][7:])
    if h == "info":
        return {"stack": pulumi.get_stack, "project": pulumi.get_project, "preview": pulumi.runtime.is_dry_run, "org": pulumi.get_organization}[e[1]]()
    if h == "sout":
        r = rt.res[e[1]]
        return (r.require_output if e[3] else r.get_output)(ev(rt, e[2], env))
    if h == "args":
        return typed().ARGS[e[1]](**{k: ev(rt, x, env) for k, x in e[2].items()})
    if h == "color":
        return typed().ColorKind(e[1])
    if h == "tuple":
        return tuple(ev(rt, x, env) for x in e[1])
    if h == "iset":
        return set(e[1])
    if h == "range":
        return range(e[1])
    if h == "obj":
        return Plain({k: ev(rt, x, env) for k, x in e[1].items()})
    if h == "dup":
        x = ev(rt, e[1], env)
        return {"a": x, "b": [x, x]}
    if h == "cyc":
        return cyclic(e[1], ev(rt, e[2], env))
    if h == "attr":
        return getattr(ev(rt, e[1], env), e[2])
    raise ValueError(h)


class Plain:
    """An object of a class of the user's own."""

    def __init__(self, d):
        self.__dict__.update(d)


def cyclic(kind, x):
    if kind == "dict":
        d = {"a": x, "_hidden": x}
        d["self"] = d
        return d
    if kind == "list":
        d = [x]
        d.append(d)
        return d
    if kind == "deep":
        d = {"a": x}
        d["l"] = [1, {"up": d}]
        return d
    o = Plain({"a": x})
    o.me = o
    return o


def _copy(v):
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


def _apply(rt, site, out, F, env):
    def body(v):
        rt.fired.append((site, canon(v)))
        rt.sim.log("callback", rt.tag, site, canon(v))
        env2 = dict(env)
        env2["$"] = v
        run_ops(rt, F.get("ops", []), env2, None)
        if F.get("raise"):
            raise UserError(F["raise"])
        return ev(rt, F["ret"], env2)

    if F.get("async"):
        async def acb(v):
            await asyncio.sleep(rt.sim.latency())
            return body(v)
        return out.apply(acb)
    return out.apply(body)


CURRENT = None


def main():
    """Entry of the program file the executor runs."""
    rt = CURRENT
    up = sys._getframe(1)
    rt.started = {"args": sys.argv[1:], "program": os.path.realpath(sys.argv[0]), "cwd": os.getcwd(), "project": pulumi.get_project(), "stack": pulumi.get_stack(),
                  "organization": pulumi.get_organization(), "preview": pulumi.runtime.is_dry_run(), "name": up.f_globals.get("__name__")}
    run_ops(CURRENT, CURRENT.wl["ops"], {}, None)

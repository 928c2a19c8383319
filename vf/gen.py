"""Swarm generator of program descriptions (plus the engine's planned answers and faults)."""
import json
import random

from . import refs
from . import schema
from . import wire

PK = ("pa", "pb", "pc")
STR = ("", "x", "hello", "a b", "Ünï", "0", "p/q", "s-%d")
BASE = {
    # swarm dials, permille
    "comp": 350, "remote": 150, "provider": 200, "read": 120, "get": 80, "preview": 300, "inline": 350,
    "apply": 550, "nested": 300, "secret": 300, "deep": 400, "coro": 300, "depends": 350, "self": 0, "alias": 150,
    "asset": 120, "resval": 200, "unsecret": 80, "invoke": 150, "call": 120, "log": 150, "opts": 250, "refs": 200,
    "pdeps": 150, "nofeat": 120, "export": 600, "echo": 500, "sec_out": 250, "unk_out": 300, "share": 0, "compout": 600,
    # faults
    "err": 0, "raise": 0, "cbraise": 0, "corofail": 0, "death": 0, "failures": 0, "slow": 120, "feat_err": 0,
    "acb": 200, "catch": 0, "oaerr": 0, "badout": 0,
    # surface: styles of resource, shared and merged options, transformations, configuration, stack references
    "legacy": 120, "typed": 150, "sref": 100, "optv": 150, "ioptv": 200, "trans": 120, "strans": 80, "cfg": 150, "badcfg": 0,
    "sharedv": 150, "shape": 120, "ansid": 40, "penv": 40, "provmap": 60, "ptree": 30, "cenv": 400, "lets": 60, "invs": 0, "nestsec": 150, "hyd": 60, "stream": 300, "badref": 0, "misuse": 0, "badval": 0,
    "n": (2, 9),
}


MISUSE = ("no type", "type", "no name", "name", "options", "parent", "dependency", "dependencies", "read component", "merge", "merge2", "imerge", "imerge2",
          "result type", "method type", "asset", "asset file", "asset URI", "archive", "archive key", "archive value", "archive file", "archive URI",
          "iterate", "configuration", "number", "decimal", "flag", "object", "text", "secret number", "secret text", "second stack", "module again", "package again")


class Gen:
    tag = ""

    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(BASE)
        self.p.update(prof or {})
        # swarm: each dial is sometimes switched off, sometimes doubled
        for k, v in list(self.p.items()):
            if isinstance(v, int) and k not in ("preview", "inline") and ("!" + k) not in self.p:
                m = rng.choice((0, 1, 1, 1, 2))
                self.p[k] = min(950, v * m)
        self.nname = 0
        self.nsite = 0
        self.nvar = 0
        self.unkid = None
        self.nlit = 0
        self.ninv = 0
        self.nref = 0
        self.plans = {}
        self.extra = []
        self.budget = rng.randint(*self.p["n"])
        self.faults = []
        self.fail_left = 1 if rng.random() < 0.75 else 2
        self.org = bool(self.p.get("org", 1))
        self.listdeps = rng.random() < 0.5   # dependencies added by transformations, and then none that are unknown as a whole
        self.config, self.secret_keys = {}, []
        if self.ch("cfg"):
            self.config = {"proj:s": "cfg-s", "proj:n": "17", "proj:b": rng.choice(("true", "false")), "proj:f": "2.5",
                           "proj:o": json.dumps({"k0": ["cfg", 1], "q": "z"}), "other:s": "topsecret-cfg"}
            self.config.update({"proj:zn": "0", "proj:zf": "-0.5", "proj:z0": "0.0", "proj:zs": "", "proj:zo": rng.choice(("{}", "[]", "0", "false")), "proj:T": rng.choice(("True", "False"))})
            self.secret_keys = ["other:s"]

    def ch(self, k):
        return self.r.random() * 1000 < self.p[k]

    def name(self, pre):
        self.nname += 1
        return "%s%d" % (pre, self.nname)

    def site(self):
        self.nsite += 1
        return "s%d" % self.nsite

    def var(self):
        self.nvar += 1
        return "v%d" % self.nvar

    def s(self):
        self.nlit += 1
        v = self.r.choice(STR)
        return v % self.nlit if "%" in v else v

    # ------------------------------------------------------------ values
    def lit(self, d=0):
        r = self.r
        k = r.randrange(9)
        if k < 3:
            return ["lit", self.s()]
        if k == 3:
            return ["lit", r.choice((0, 1, -7, 2.5, 123456789012, 1e21))]
        if k == 4:
            return ["lit", r.choice((True, False))]
        if k == 5 and d:
            return ["lit", None]
        if k == 6:
            return ["lit", [self.s(), r.randrange(5)]]
        if k == 7:
            return ["lit", {r.choice(("k", "k0", "sub_key")): self.s(), "n": {"z": r.randrange(9), "q": "y"}}]
        if k == 8:
            return ["lit", r.choice(([], {}, [[]], {"e": {}}, "04", {"n": None}))]
        return ["lit", self.s()]

    def props_of(self, sc, typ=None):
        out = []
        for e in sc["res"]:
            for p, t in e["outs"]:
                if typ is None or t == typ:
                    out.append((e["n"], p))
        return out

    def string(self, sc, d):
        """An expression whose value is a string (or an output of one)."""
        r = self.r
        opts = ["lit", "lit"]
        if self.props_of(sc, "s"):
            opts += ["prop"] * 3
        cust = [e for e in sc["res"] if e["kind"] in ("custom", "provider", "read") and e.get("selfok", True)]
        if cust:
            opts += ["id"]
        allr = [e for e in sc["res"] if e.get("selfok", True)]
        if allr:
            opts += ["urn"]
        if sc.get("param"):
            opts += ["ptag"] * 2
        if d < 3:
            if self.ch("apply"):
                opts += ["apply"] * 3
            if self.ch("secret"):
                opts += ["secret"]
            opts += ["concat"]
        if self.config:
            opts += ["cfg"]
        opts += ["info"] if r.random() < 0.1 else []
        c = r.choice(opts)
        if c == "cfg":
            return ["cfg", r.choice(({"m": "get", "k": "s"}, {"m": "require", "k": "s"}, {"m": "get", "k": "none", "d": "dflt"},
                                     {"m": "require_secret", "k": "s"}, {"m": "get_secret", "k": "s", "ns": "other"}, {"m": "get", "k": "zs", "d": "dflt"}))]
        if c == "info":
            return ["info", r.choice(("stack", "project") + (("org",) if self.org else ()))]
        if c == "prop":
            n, p = r.choice(self.props_of(sc, "s"))
            return ["prop", n, p]
        if c == "id":
            n = [e["n"] for e in cust if e["n"] == self.unkid]
            return ["id", n[0] if n and r.random() < 0.7 else r.choice(cust)["n"]]
        if c == "urn":
            return ["urn", r.choice(allr)["n"]]
        if c == "ptag":
            return ["ptag", "t%d" % r.randrange(9)]
        if c == "apply":
            return self.apply(sc, d + 1, "s")
        if c == "secret":
            return ["secret", self.string(sc, d + 1)]
        if c == "concat":
            return ["concat", [self.string(sc, d + 1) for _ in range(r.randint(1, 3))]]
        return ["lit", self.s()]

    def output(self, sc, d):
        """An expression that certainly is an Output."""
        r = self.r
        opts = ["from"]
        if self.props_of(sc):
            opts += ["prop"] * 4
        if d < 4:
            if self.ch("apply"):
                opts += ["apply"] * 3
            opts += ["all", "alld", "concat"]
            if self.ch("secret"):
                opts += ["secret"] * 2
            if self.ch("unsecret"):
                opts += ["unsecret"]
            opts += ["idx"]
        ovars = [v for v, t in sc["vars"] if t == "o"]
        if ovars:
            opts += ["var"] * (2 + self.p["lets"] // 150)
        srefs = [e for e in sc["res"] if e.get("style") == "sref"]
        if srefs:
            opts += ["sout"] * 3
        attrs = [(e["n"], f) for e in sc["res"] for f in e.get("attrs", ())]
        if attrs:
            opts += ["attr"] * 2
        if self.config:
            opts += ["cfg"]
        if sc.get("nocoro"):
            sc = dict(sc, nocoro=None)
        c = r.choice(opts)
        if c == "sout":
            return self.sout(r.choice(srefs), sc)
        if c == "attr":
            n, f = r.choice(attrs)
            e = ["prop", n, f[0]]
            if r.random() < 0.2:
                e = ["secret", e]
            for x in f[1:]:
                e = ["attr", e, x]
            return e
        if c == "cfg":
            return ["cfg", r.choice(({"m": "require_secret", "k": "s"}, {"m": "require_secret_object", "k": "o"}, {"m": "get_secret_int", "k": "n"},
                                     {"m": "get_secret_bool", "k": "b"}, {"m": "require_secret_float", "k": "f"},
                                     {"m": "get_secret_int", "k": "none", "d": 3}, {"m": "require_secret", "k": "s", "ns": "other"},
                                     {"m": "get_secret_object", "k": "none", "d": {"a": [1]}}, {"m": "get_secret_int", "k": "zn", "d": 4}, {"m": "get_secret_bool", "k": "b", "d": True},
                                     {"m": "get_secret_float", "k": "z0", "d": 1.5}, {"m": "get_secret_object", "k": "zo", "d": {"a": 1}}))]
        if c == "prop":
            n, p = r.choice(self.props_of(sc))
            return ["prop", n, p]
        if c == "var":
            return ["var", r.choice(ovars)]
        if c == "apply":
            return self.apply(sc, d + 1)
        if c == "all":
            return ["all", self.crowd([self.value(sc, d + 1) for _ in range(r.randint(1, 3))])]
        if c == "alld":
            return ["alld", {"k%d" % i: x for i, x in enumerate(self.crowd([self.value(sc, d + 1) for _ in range(r.randint(1, 3))]))}]
        if c == "concat":
            return ["concat", self.crowd([self.string(sc, d + 1) for _ in range(r.randint(1, 3))])]
        if c == "secret":
            return ["secret", self.value(sc, d + 1)]
        if c == "unsecret":
            return ["unsecret", self.output(sc, d + 1)]
        if c == "idx":
            if r.random() < 0.5:
                k = r.choice("ab")
                return ["idx", ["alld", {"a": self.value(sc, d + 2), "b": self.value(sc, d + 2)}], k]
            return ["idx", ["all", [self.value(sc, d + 2), self.value(sc, d + 2)]], r.randrange(2)]
        return ["from", self.value(sc, d + 1)]

    def value(self, sc, d=0):
        """Any input."""
        r = self.r
        opts = ["lit", "lit", "output", "output", "output", "string"]
        if d < 3 and self.ch("deep"):
            opts += ["list", "dict"]
        if self.ch("coro") and d < 4:
            opts += ["fut"] if sc.get("nocoro") else ["coro", "fut"]
        if self.ch("asset"):
            opts += ["asset"]
        rr = [e for e in sc["res"] if e.get("selfok", True)]
        if rr and self.ch("resval") and not sc.get("noresval"):
            opts += ["res"]
        if sc.get("param"):
            opts += ["param", "ptag"]
        if self.config and r.random() < 0.3:
            opts += ["cfg"]
        if r.random() < 0.03:
            opts += ["info"]
        targs = [e for e in sc["res"] if e.get("style") == "typed"]
        if targs and r.random() < 0.3:
            opts += ["args", "color"]
        if self.ch("corofail") and self.fail_left and not sc.get("nofail") and not sc.get("nocoro"):
            opts += ["failcoro"]
        vv = [v for v, t in sc["vars"] if t == "v"]
        if vv:
            opts += ["vvar"]
        c = r.choice(opts)
        if c == "vvar":
            return ["var", r.choice(vv)]
        if c == "cfg":
            if self.fail_left and self.ch("badcfg") and not sc.get("nofail"):
                self.fail_left -= 1
                return ["cfg", r.choice(({"m": "require", "k": "none"}, {"m": "get_int", "k": "s"}, {"m": "require_secret_bool", "k": "n"},
                                         {"m": "require_object", "k": "s"}, {"m": "require_secret_float", "k": "none"}, {"m": "get_bool", "k": "zn"}, {"m": "get_int", "k": "f"},
                                         {"m": "get_bool", "k": "zs", "d": True}, {"m": "get_int", "k": "zs", "d": 3}, {"m": "require_int", "k": "b"}))]
            if r.random() < 0.15:
                return ["info", r.choice(("hidden other:s", "hidden other:s", "hidden other:none"))]
            return ["cfg", r.choice(({"m": "get_int", "k": "n"}, {"m": "require_bool", "k": "b"}, {"m": "require_float", "k": "f"},
                                     {"m": "get_object", "k": "o"}, {"m": "require_object", "k": "o"}, {"m": "get_bool", "k": "none", "d": True},
                                     {"m": "get_float", "k": "n"}, {"m": "get", "k": "s", "ns": "other"}, {"m": "get_int", "k": "zn", "d": 4}, {"m": "get_float", "k": "z0", "d": 1.5},
                                     {"m": "get_bool", "k": "b", "d": True}, {"m": "get_bool", "k": "T", "d": True}, {"m": "require_float", "k": "zf"}, {"m": "get_object", "k": "zo", "d": {"a": 1}},
                                     {"m": "require_int", "k": "zn"}, {"m": "require", "k": "zs"}))]
        if c == "info":
            return ["info", r.choice(("stack", "project", "preview") + (("org",) if self.org else ()) + (("hidden other:s", "hidden other:none") if self.config else ()))]
        if c == "args":
            return self.tval(r.choice((schema.LEAF, schema.INNER)), sc, d + 1)
        if c == "color":
            return ["color", r.choice(schema.COLORS)]
        if c == "output":
            return self.output(sc, d)
        if c == "string":
            return self.string(sc, d)
        if c == "list":
            return ["list", [self.value(sc, d + 1) for _ in range(r.randint(1, 3))]]
        if c == "dict":
            return ["dict", {"k%d" % i: self.value(sc, d + 1) for i in range(r.randint(1, 3))}]
        if c == "coro" and r.random() < 0.25 and not sc.get("param"):
            return ["peek", r.choice(("known", "secret", "future")), self.output(sc, d + 1)]
        if c in ("coro", "fut"):
            return [c, self.value(sc, d + 1)]
        if c == "asset":
            k = r.choice(("text", "path", "uri"))
            if d < 3 and r.random() < 0.3:
                return r.choice((["arch", {"f": ["asset", "text", self.s()], "g": ["asset", k, "./q"]}], ["farch", "path", "./d"],
                                 ["farch", "uri", "https://x/a.zip"], ["arch", {"h": ["farch", "path", "./e"], "i": ["fpath", "k/l"]}],
                                 ["fpath", "m/n"]))
            return ["asset", k, r.choice((self.s(), self.s(), "", " x\n")) if k == "text" else "./f"]
        if c == "res":
            return ["res", r.choice(rr)["n"]]
        if c == "param":
            return ["param"]
        if c == "ptag":
            return ["ptag", "q"]
        if c == "failcoro":
            self.fail_left -= 1
            return ["failcoro", "coro failed %d" % self.fail_left]
        return self.lit(d)

    def sout(self, e, sc):
        """An output of another stack, by a name that is itself an input."""
        r = self.r
        req = r.random() < 0.4
        if req and self.fail_left and self.ch("badref"):
            self.fail_left -= 1
            k = "missing"
        else:
            k = r.choice(e["soutk"] if req and e["soutk"] else e["soutk"] + ["missing"])
            req = req and k != "missing"
        k = ["lit", k]
        x = r.random()
        if x < 0.15:
            k = ["secret", k]
        elif x < 0.3:
            k = ["from", ["coro", k]]
        elif x < 0.5 and self.props_of(sc) and self.ch("apply"):
            a, p = r.choice(self.props_of(sc))
            k = ["apply", self.site(), ["prop", a, p], {"ret": k}]
        return ["sout", e["n"], k, req]

    def tval(self, t, sc, d):
        """An input for a property declared to be of type t."""
        r = self.r
        k = r.random()
        if d < 4 and k < 0.25:
            return [r.choice(("from", "from", "secret")), self.tval(t, dict(sc, nocoro=None), d + 1)]
        if k < 0.35 and self.ch("coro") and not sc.get("nocoro"):
            return ["coro", self.tval(t, sc, d + 1)]
        cand = [(e["n"], p) for e in sc["res"] if e.get("style") == "typed" for p, ty in e.get("tprops", ()) if ty == t]
        if cand and r.random() < 0.5:
            n, p = r.choice(cand)
            return ["prop", n, p]
        if t == "str":
            return self.string(sc, d + 1)
        if t == "int":
            return ["lit", r.randrange(100)]
        if t == "color":
            c = r.choice(schema.COLORS)
            return r.choice((["color", c], ["lit", c]))
        if t is None:
            return self.value(sc, d + 1)
        if t[0] == "list":
            return ["list", [self.tval(t[1], sc, d + 1) for _ in range(r.randint(0, 2))]]
        if t[0] == "map":
            return ["dict", {x: self.tval(t[1], sc, d + 1) for x in r.sample(("a_b", "leaf_name", "cD", "k0"), r.randint(0, 2))}]
        c = schema.CLASSES[t[1]]
        f = {}
        for py, (pu, ty, req) in c.items():
            if req or (r.random() < 0.4 and d < 5):
                f[py] = self.tval(ty, sc, d + 1)
        return ["args", t[1], f] if r.random() < 0.7 else ["dict", f]

    def tans(self, t, d=0):
        """An answer of the engine of declared type t (Pulumi names)."""
        r = self.r
        if d and self.ch("nestsec") and r.random() < 0.3:
            return wire.secret(self.tans(t, d + 1))
        if d and t in ("str", None) and r.random() < 0.1 and self.preview and self.ch("unk_out"):
            return wire.UNKNOWN
        if t == "str":
            return "ts-" + self.s()
        if t == "int":
            return r.randrange(-5, 1000)
        if t == "color":
            return r.choice(schema.COLORS)
        if t is None:
            return r.choice(("any", 2.5, ["a", {"leafName": "z"}], {"leafName": "kept", "x_y": 1}))
        if t[0] == "list":
            return [self.tans(t[1], d + 1) for _ in range(r.randint(0, 3))]
        if t[0] == "map":
            return {x: self.tans(t[1], d + 1) for x in r.sample(("a_b", "leafName", "leaf_name", "num_items", "k0"), r.randint(0, 3))}
        return {pu: self.tans(ty, d + 1) for py, (pu, ty, req) in schema.CLASSES[t[1]].items() if req or r.random() < 0.6}

    def ref_wire(self, sure=False):
        """A reference to a resource of a package the program has registered (or to a version of it that it has not)."""
        r = self.r
        self.nref += 1
        name = "h%d" % self.nref
        typ = r.choice(("ph:m0:T1", "ph:m0:T1", "ph:m1:T", "ph:m2:K0", "ph:m0:K", "pulumi:providers:ph", "pulumi:providers:pi"))
        urn = "urn:pulumi:stk::proj::%s%s::%s" % (r.choice(("", "", "a:b:C$", "a:b:C$z:z:Z$")), typ, name)
        kind = refs.pick(typ, "")[0]
        w = {wire.SIG: wire.RESREF, "urn": urn}
        if kind != "K":
            w["id"] = "" if self.preview and not sure and r.random() < 0.3 else "rid-" + name
        if r.random() < 0.7:
            w["packageVersion"] = r.choice(("", "1.0.0", "1.2.0", "1.2.2", "1.10.0", "2.0.0", "0.1.0", "9.0.0"))
        plan = {"out": {}}
        if kind != "K":
            plan["id"] = "gid-" + name
        for p in refs.PROPS[kind]:
            k = r.random()
            if k < 0.4:
                plan["out"][p] = ["v", r.choice(("state-" + name, 4, {"q": ["r"]}))]
            elif k < 0.6:
                plan["out"][p] = ["sec", "topsecret-%s-%s" % (name, p)]
            elif k < 0.8:
                plan["out"][p] = ["unk", "late-" + name]
        if self.ch("slow"):
            plan["slow"] = r.choice((0.5, 5.0))
        self.plans["get:" + urn] = plan
        self.extra.append(urn)
        return w

    def ans(self):
        """A structured answer, with secrets and unknowns at depth."""
        r = self.r
        if self.ch("hyd"):
            w = self.ref_wire()
            return r.choice((w, w, [w], {"x": w, "y": 1}, wire.secret(w), {"l": ["a", wire.secret({"q": w})]}))
        if self.ch("asset"):
            k = r.choice(("text", "path", "uri"))
            a = {wire.SIG: wire.ASSET, k: r.choice(("as", "", " a\n\tb\n", "\u00e9\u2603 ")) if k == "text" else "as"}
            b = {wire.SIG: wire.ARCHIVE, r.choice(("path", "uri")): "ar"}
            c = {wire.SIG: wire.ARCHIVE, "assets": {"f": a, "g.h": b}}
            if r.random() < 0.3:
                c = {wire.SIG: wire.ARCHIVE, "assets": r.choice(({"in": c, "f": a}, {"in": {wire.SIG: wire.ARCHIVE, "assets": {}}}, {}))}
            return r.choice((a, b, c, [a, {"x": c}], {"deep": {"asset": b}}))
        v = r.choice((1, 2.5, True, ["a", "b"], {"x": "y", "l": [1, {"q": "r"}]}, "", [], {}, {"kZero": 1, "subKey": {"quux": ["t"]}}))
        if isinstance(v, (dict, list)) and self.ch("nestsec"):
            x = wire.secret(r.choice(("topsecret-deep", {"a": [1, 2]}, 7)))
            if r.random() < 0.3 and self.preview:
                x = wire.UNKNOWN
            if isinstance(v, list):
                v = v + [x]
            else:
                v = dict(v, s=x) if r.random() < 0.6 else dict(v, m={"l": [0, x]})
        return v

    def apply(self, sc, d, ret="any"):
        r = self.r
        site = self.site()
        src = self.output(sc, d + 1)
        return self.applied(sc, d, ret, site, src)

    def applied(self, sc, d, ret, site, src, force_ops=False):
        r = self.r
        F = {}
        sc2 = {"res": list(sc["res"]), "vars": list(sc["vars"]), "param": True, "depth": sc.get("depth", 0) + 1,
               "in_cb": True, "noresval": sc.get("noresval"), "nofail": sc.get("nofail"), "comp": sc.get("comp"),
               "optv": list(sc.get("optv", ())), "ioptv": list(sc.get("ioptv", ()))}
        if (force_ops or (self.ch("nested") and sc2["depth"] < 3)) and self.budget > 0:
            F["ops"] = self.ops(sc2, r.randint(1, 2))
        if self.fail_left and self.ch("cbraise") and not sc.get("nofail"):
            self.fail_left -= 1
            F["raise"] = "callback error %s" % site
        if self.ch("acb"):
            F["async"] = 1
            F["ret"] = ["ptag", site]
        elif ret == "s":
            F["ret"] = ["ptag", site] if r.random() < 0.6 or d > 3 else self.string(sc2, d + 1)
        else:
            k = r.random()
            if k < 0.35:
                F["ret"] = ["ptag", site]
            elif k < 0.5:
                F["ret"] = ["param"]
            elif d > 3:
                F["ret"] = self.lit()
            elif k < 0.8:
                F["ret"] = self.output(sc2, d + 1)
            else:
                # a plain value: nested inputs inside an apply result are not unwrapped, so keep it flat
                F["ret"] = self.lit()
        return ["apply", site, src, F]

    # ------------------------------------------------------------ resources
    def transf(self, sc=None):
        """A transformation: which types it changes, and how."""
        r = self.r
        self.nsite += 1
        t = {"id": "T%d" % self.nsite, "types": None}
        if r.random() < 0.4:
            t["types"] = ["%s:m%d:T%d" % (r.choice(PK), r.randrange(2), r.randrange(3)) for _ in range(4)]
        k = r.random()
        if k < 0.6:
            t["acc"] = 1
        if k > 0.5:
            t["wrap"] = r.choice(("p0", "p0", "my_p0", "the_name"))
        if r.random() < 0.5:
            o = {}
            if r.random() < 0.3:
                o["protect"] = r.random() < 0.5
            if r.random() < 0.3:
                o["ignore_changes"] = ["p1", "t0"]
            if r.random() < 0.3:
                o["aliases"] = [r.choice(({"name": "t-" + t["id"]}, "urn:pulumi:stk::proj::t:m:T::t-%s" % t["id"]))]
            if r.random() < 0.3:
                o["version"] = "9.9.9"
            if r.random() < 0.3:
                o["additional_secret_outputs"] = ["o0"]
            if sc is not None:
                tops = [e["n"] for e in sc["res"] if e["kind"] == "custom" and e.get("selfok", True)]
                if tops and self.listdeps and r.random() < 0.5:
                    o["depends_on"] = ["list", [["res", r.choice(tops)]]]
            if o:
                t["opts"] = o
        if r.random() < 0.4:
            t["inplace"] = 1
        provs = [e for e in sc["res"] if e["kind"] == "provider"] if sc is not None else []
        if provs and r.random() < 0.4:
            # options of its own, the same object for every resource
            t["fix"] = 1
            t["opts"] = {k: v for k, v in (t.get("opts") or {}).items() if k != "depends_on"}
            t["opts"]["providers"] = sorted({e["pkg"]: e["n"] for e in r.sample(provs, len(provs))}.values())
        return t

    def pick_opts(self, kind, sc, name, pkg, in_comp, listonly=False):
        r = self.r
        o = {}
        comps = [e["n"] for e in sc["res"] if e["kind"] in ("comp", "custom", "remote") and e.get("selfok", True)]
        if comps and r.random() < 0.25 and not in_comp:
            o["parent"] = r.choice(comps)
        if sc["res"] and self.ch("depends"):
            o["depends_on"] = self.depends(sc, listonly)
        if kind != "get" and self.ch("trans") and r.random() < (0.8 if kind == "comp" else 0.25):
            o["transformations"] = [self.transf(sc) for _ in range(r.choice((1, 1, 2)))]
        provs = [e for e in sc["res"] if e["kind"] == "provider"]
        if kind in ("custom", "read") and r.random() < 0.5:
            m = [e["n"] for e in provs if e["pkg"] == pkg]
            if m:
                o["provider"] = r.choice(m)
        if provs and (r.random() < 0.5 if kind in ("comp", "remote") else kind in ("custom", "read") and self.ch("provmap")):
            by = {}
            for e in provs if r.random() < 0.5 else r.sample(provs, len(provs)):
                by[e["pkg"]] = e["n"]
            ks = sorted(by)
            r.shuffle(ks)
            o["providers"] = [by[k] for k in ks[: r.randint(1, len(ks))]]
            if r.random() < 0.3:
                o["_pdict"] = 1
        if kind in ("comp", "remote") and r.random() < 0.2:
            m = [e["n"] for e in provs if e["pkg"] == pkg]
            if m:
                o["provider"] = r.choice(m)
        if self.ch("opts"):
            if r.random() < 0.3:
                o["protect"] = r.random() < 0.7
            if kind != "read" and r.random() < 0.3:
                o["ignore_changes"] = r.choice((["p0"], ["p0", "p1.x"], []))
            if r.random() < 0.3:
                o["version"] = r.choice(("1.2.3", "0.0.1-alpha"))
            if r.random() < 0.3:
                o["plugin_download_url"] = "https://x/y"
            if kind in ("custom", "read") and r.random() < 0.3:
                o["additional_secret_outputs"] = ["p0"]
            if kind == "custom" and r.random() < 0.3:
                o["replace_on_changes"] = ["p0"]
            if kind in ("custom",) and r.random() < 0.3:
                o["retain_on_delete"] = True
            if kind == "custom" and r.random() < 0.2:
                o["import_"] = "imp-" + name
            if kind == "custom" and r.random() < 0.3:
                o["delete_before_replace"] = r.random() < 0.5
            if kind in ("custom", "comp") and r.random() < 0.3:
                o["custom_timeouts"] = {k: "%d%s" % (r.randint(1, 9), r.choice("smh")) for k in ("create", "update", "delete") if r.random() < 0.5}
                if r.random() < 0.4:
                    o["custom_timeouts"]["_"] = "dict"
        if self.ch("alias") and kind != "get":
            al = []
            for _ in range(r.randint(1, 2)):
                c = r.randrange(4)
                if c == 0:
                    al.append("urn:pulumi:stk::proj::old:m:T::old-%s" % name)
                elif c == 1:
                    al.append({"name": "old-" + name})
                elif c == 2:
                    d = {"type_": "old:m:T"}
                    if r.random() < 0.4:
                        d["stack"] = "oldstk"
                    if r.random() < 0.4:
                        d["project"] = "oldproj"
                    if r.random() < 0.5:
                        d["parent"] = None
                    al.append(d)
                else:
                    al.append(["from", ["coro", ["lit", "urn:pulumi:stk::proj::co:m:T::co-%s" % name]]])
            o["aliases"] = al
        return o

    def depends(self, sc, listonly=False):
        r = self.r
        listonly = listonly or self.listdeps
        sc = dict(sc, res=[e for e in sc["res"] if e.get("selfok", True)])
        if not sc["res"]:
            return ["list", []]

        def one():
            n = r.choice(sc["res"])["n"]
            k = r.random()
            if k < 0.6:
                return ["res", n]
            if k < 0.75:
                return ["from", ["coro", ["res", n]]]
            pr = self.props_of(sc)
            if pr and k < 0.9:
                a, p = r.choice(pr)
                return ["apply", self.site(), ["prop", a, p], {"ret": ["res", n]}]
            return ["res", n]
        k = r.random()
        if k < 0.2 and not listonly:
            return one()
        lst = ["list", [one() for _ in range(r.randint(1, 3))]]
        if listonly:
            return lst
        if k < 0.35:
            return ["from", lst if r.random() < 0.8 else ["list", []]]
        if k < 0.45 and self.ch("coro"):
            return [r.choice(("coro", "fut")), lst]
        return lst

    def props(self, sc, kind):
        r = self.r
        props = {}
        for i in range(r.randint(0, 3)):
            props["p%d" % i] = self.value(sc)
        if props and self.fail_left and self.ch("badval"):
            self.fail_left -= 1
            v = ["badval", r.choice(("object", "set", "bytes", "complex", "tuple"))]
            props["p0"] = r.choice((v, v, ["list", [["lit", 1], v]], ["dict", {"k": ["list", [v]]}]))
        if kind in ("custom", "read", "remote", "provider", "get"):
            for i in range(r.randint(0, 2)):
                props["o%d" % i] = ["lit", None]
        return props

    def plan_for(self, name, kind, props, sc, style=None):
        """The engine's answer: outs gives (prop, type) as later code may use them."""
        r = self.r
        plan, outs = {}, []
        out = {}
        names = schema.py2pu(style)
        for p in props:
            py, p = p, names.get(p, p)
            if style == "typed":
                ty = schema.CLASSES["Thing"][py][1]
                outs.append((py, "t"))
                k = r.random()
                if not py.startswith("out_"):
                    if k < 0.15:
                        out[p] = ["v", self.tans(ty)]
                elif k < 0.6:
                    out[p] = ["v", self.tans(ty)]
                elif k < 0.75:
                    out[p] = ["sec", self.tans(ty)]
                elif k < 0.9:
                    out[p] = ["unk", self.tans(ty)]
            elif py.startswith(("o", "my_o")):
                k = r.random()
                if self.ch("sec_out"):
                    out[p] = ["sec", r.choice(("topsecret-%s-%s" % (name, p), {"pw": "topsecret-%s" % name}, ["z", 1]))]
                    outs.append((py, "s" if isinstance(out[p][1], str) else "a"))
                elif self.ch("unk_out"):
                    out[p] = ["unk", "late-%s-%s" % (name, p)]
                    outs.append((py, "s"))
                elif self.ch("refs") and [e for e in sc["res"] if e["kind"] in ("custom", "remote") and e.get("sync")] and kind != "provider":
                    out[p] = ["ref", r.choice([e for e in sc["res"] if e["kind"] in ("custom", "remote") and e.get("sync")])["n"]]
                    outs.append((py, "a"))
                    plan.setdefault("needs", []).append(out[p][1])
                elif k < 0.6:
                    out[p] = ["v", "out-%s-%s" % (name, p)]
                    outs.append((py, "s"))
                elif k < 0.9:
                    out[p] = ["v", self.ans()]
                    outs.append((py, "a"))
                else:
                    outs.append((py, "a"))  # the engine says nothing about it
            else:
                k = r.random()
                if k < 0.1:
                    out[p] = ["v", "changed-%s" % name]
                outs.append((py, "a"))
        if kind != "get" and self.ch("echo"):
            plan["echo_all"] = 1
        if r.random() < 0.15:
            out["extra"] = ["v", "unasked"]
        if self.ch("ansid"):
            out["id"] = ["v", "not-the-id"]
        if self.ch("ansid"):
            out["urn"] = ["v", "not-the-urn"]
        plan["out"] = out
        if kind in ("custom", "provider") and r.random() < 0.3:
            plan["preview_id"] = 1
        if kind in ("custom", "remote") and props and self.ch("pdeps"):
            u = "urn:pulumi:stk::proj::z:z:Z::z%d" % r.randrange(3)
            self.extra.append(u)
            k = r.choice(sorted(props))
            plan["pdeps"] = {names.get(k, k): [u]}
        if self.ch("slow"):
            plan["slow"] = r.choice((0.5, 5.0, 60.0))
        if self.fail_left and self.ch("err"):
            self.fail_left -= 1
            plan["err"] = "engine refuses %s" % name
            plan["code"] = r.choice(("unknown", "invalid", "internal", "exhausted", "unavailable", "deadline"))
            self.loss(plan)
        elif self.fail_left and self.ch("death"):
            self.fail_left -= 1
            plan["hang_death"] = 1
        elif self.fail_left and kind == "get" and self.ch("failures"):
            self.fail_left -= 1
            plan["failures"] = r.choice((1, 1, 2, 3))
        elif self.fail_left and kind != "comp" and props and style is None and self.ch("badout"):
            self.fail_left -= 1
            plan["badout"] = 1
        return plan, outs

    def resource(self, sc, in_comp=False):
        r = self.r
        self.budget -= 1
        kinds = ["custom"] * 4
        for k in ("comp", "remote", "provider", "read", "get"):
            if self.ch(k) and not (k == "comp" and sc.get("cdepth", 0) >= 2):
                kinds += [k] * 2
        kind = r.choice(kinds)
        name = self.name({"custom": "c", "comp": "k", "remote": "m", "provider": "prov", "read": "d", "get": "g"}[kind])
        pkg = r.choice(PK)
        if kind == "provider":
            typ = "pulumi:providers:" + pkg
        else:
            typ = "%s:m%d:T%d" % (pkg, r.randrange(2), r.randrange(3))
        op = {"op": "res", "kind": kind, "n": name, "type": typ}
        sync = not sc.get("in_cb")
        entry = {"n": name, "kind": kind, "pkg": pkg, "outs": [], "sync": sync}
        style = None
        if kind in ("custom", "read") and self.ch("legacy"):
            style = "legacy"
        elif kind in ("custom", "read") and self.ch("typed"):
            style = "typed"
        elif kind == "read" and self.ch("sref"):
            return [self.sref(op, entry, sc)]
        if style:
            op["style"] = entry["style"] = style
        if kind == "get":
            urn = "urn:pulumi:stk::proj::%s::%s" % (typ, name)
            op["props"] = {"o%d" % i: ["lit", None] for i in range(r.randint(0, 2))}
            plan, outs = self.plan_for(name, kind, op["props"], sc)
            plan["id"] = "" if self.preview and r.random() < 0.15 else "gid-" + name
            plan.pop("needs", None)
            plan["out"] = {k: v for k, v in plan["out"].items() if v[0] != "ref"}
            self.plans["get:" + urn] = plan
            op["opts"] = {"urn": urn}
            self.extra.append(urn)
            entry["outs"] = outs
            sc["res"].append(entry)
            return [op]
        if kind == "comp":
            props = {}
            if r.random() < 0.3:
                props = {"p0": self.value(sc)}
        elif style == "typed":
            props = {}
            for py in schema.THING_INPUTS:
                if r.random() < 0.4:
                    props[py] = self.tval(schema.CLASSES["Thing"][py][1], sc, 1)
            for py in schema.CLASSES["Thing"]:
                if py.startswith("out_") and r.random() < 0.5:
                    props[py] = ["lit", None]
        else:
            props = self.props(sc, kind)
            if style == "legacy":
                props = {("my_" + k if "my_" + k in schema.LEGACY else k): v for k, v in props.items()}
        op["props"] = props
        use = [x for x, pk, prov in sc.get("optv", ()) if pk in (None, pkg) and kind != "get" and (kind in ("comp", "remote") or not prov)
               and (kind != "provider" or pk is None)]
        if use and r.random() < 0.6:
            op["use"] = r.choice(use)
            if r.random() < 0.5:
                op["mstyle"] = 1
        op["opts"] = self.pick_opts(kind, sc, name, pkg, in_comp, listonly="use" in op)
        if style == "legacy":
            for k in ("ignore_changes", "additional_secret_outputs", "replace_on_changes"):
                if op["opts"].get(k):
                    op["opts"][k] = ["my_" + x if x in ("p0", "o0") else x for x in op["opts"][k]]
        elif style == "typed":
            for k in ("ignore_changes", "additional_secret_outputs", "replace_on_changes"):
                if op["opts"].get(k):
                    op["opts"][k] = [r.choice(("the_name", "out_leaf", "innerList"))]
        if kind == "read":
            idsc = dict(sc, nofail=True)
            op["opts"]["id"] = r.choice((["lit", "ext-" + name], ["from", ["coro", ["lit", "ext-" + name]]], self.idexpr(sc, name)))
        plan, outs = self.plan_for(name, kind, props, sc, style)
        if style == "typed":
            entry["tprops"] = [(py, schema.CLASSES["Thing"][py][1]) for py, _ in outs]
            entry["attrs"] = self.attrs(plan)
        needs = plan.pop("needs", None)
        if needs:
            # an answer may only refer to resources that exist by then: make it depend on them
            d = op["opts"].get("depends_on")
            extra = [["res", n] for n in needs]
            op["opts"]["depends_on"] = ["list", extra + ([d] if d and d[0] == "res" else (d[1] if d and d[0] == "list" else []))]
        entry["outs"] = outs
        self.plans[name] = plan
        if kind == "comp":
            csc = {"res": list(sc["res"]), "vars": list(sc["vars"]), "param": sc.get("param"), "depth": sc.get("depth", 0),
                   "in_cb": sc.get("in_cb"), "cdepth": sc.get("cdepth", 0) + 1, "comp": name,
                   "optv": list(sc.get("optv", ())), "ioptv": list(sc.get("ioptv", ()))}
            if self.ch("self"):
                csc["res"].append(dict(entry, outs=[]))
            op["children"] = self.ops(csc, r.randint(0, 4), in_comp=True)
            if self.ch("compout"):
                osc = dict(csc)
                op["outputs"] = {"out%d" % i: self.value(osc) for i in range(r.randint(0, 3))}
                if self.ch("slow") and r.random() < 0.4:
                    self.plans["outputs:" + name] = {"slow": r.choice((0.5, 60.0))}
                if self.fail_left and self.ch("oaerr"):
                    self.fail_left -= 1
                    self.plans["outputs:" + name] = {"err": "outputs refused"}
                    if r.random() < 0.4:
                        self.plans["outputs:" + name]["code"] = "unavailable"
                        self.loss(self.plans["outputs:" + name])
            # inner resources are visible afterwards
            known = {e["n"] for e in sc["res"]}
            for e in csc["res"]:
                if e["n"] not in known and e["n"] != name:
                    sc["res"].append(e)
        sc["res"].append(entry)
        return [op]

    def attrs(self, plan):
        """Paths to attributes of typed answers that are certainly there."""
        out = []
        for pu, spec in plan["out"].items():
            py = schema.pu2py("typed").get(pu)
            if py in ("out_leaf", "out_inner") and isinstance(spec[1], dict) and wire.SIG not in spec[1]:
                for f in (("leaf_name", "num_items", "tag_map", "color_kind") if py == "out_leaf" else ("first_leaf", "more_leaves")):
                    out.append((py, f))
                fl = spec[1].get("firstLeaf")
                if py == "out_inner" and isinstance(fl, dict) and wire.SIG not in fl:
                    out.append((py, "first_leaf", "leaf_name"))
        return out

    def sref(self, op, entry, sc):
        r = self.r
        stack = r.choice(("org/other/dev", "infra"))
        if r.random() < 0.5:
            op["sname"] = 1
        else:
            stack = op["n"]
        ks = r.sample(("vpc", "pw", "list", "none"), r.randint(0, 3))
        out = {"outputs": [r.choice(("v", "v", "sec", "unk")), {k: {"vpc": "vpc-1", "pw": "topsecret-pw", "list": [1, "a", {"b": 2}], "none": ""}[k] for k in ks}]}
        if r.random() < 0.7:
            out["secretOutputNames"] = ["v", [k for k in ks if r.random() < 0.5] + (["missing"] if r.random() < 0.2 else [])]
        op.update({"style": "sref", "type": "pulumi:pulumi:StackReference", "opts": {"id": ["lit", stack]},
                   "props": {"name": ["lit", stack], "outputs": ["lit", None], "secret_output_names": ["lit", None]}})
        if sc["res"] and self.ch("depends"):
            op["opts"]["depends_on"] = self.depends(sc)
        plan = {"out": out, "echo_all": 1}
        if self.fail_left and self.ch("err"):
            self.fail_left -= 1
            plan["err"] = "no such stack"
        self.plans[op["n"]] = plan
        entry.update({"style": "sref", "soutk": ks})
        sc["res"].append(entry)
        return op

    def optvar(self, sc):
        """Options kept in a variable and used, or merged, several times."""
        r = self.r
        self.nvar += 1
        x = "O%d" % self.nvar
        pkg = r.choice((None, None, r.choice(PK)))
        name = "o%d" % self.nvar
        o = self.pick_opts(r.choice(("custom", "comp") if r.random() < 0.3 else ("custom",)), sc, name, pkg or "none", True, listonly=True)
        o.pop("parent", None)
        al = [a for a in o.get("aliases", ()) if not isinstance(a, list) and not (isinstance(a, dict) and a.get("parent"))]
        if "aliases" in o:
            o["aliases"] = al
        pk, prov = (pkg if "provider" in o else None), "providers" in o
        op = {"op": "opts", "x": x, "opts": o}
        ms = list(sc.get("optv", ()))
        if ms and r.random() < 0.5:
            m = r.choice(ms)
            if pk is None or m[1] in (None, pk):
                op["merge"] = [m[0]]
                pk, prov = pk or m[1], prov or m[2]
                if r.random() < 0.5:
                    op["mstyle"] = 1
        sc.setdefault("optv", []).append((x, pk, prov))
        return op

    def ioptvar(self, sc):
        r = self.r
        self.nvar += 1
        op = {"op": "iopts", "x": "I%d" % self.nvar, "opts": self.iopts(sc)}
        ms = list(sc.get("ioptv", ()))
        if ms and r.random() < 0.5:
            op["merge"] = r.sample(ms, r.randint(1, min(2, len(ms))))
            if r.random() < 0.5:
                op["mstyle"] = 1
        sc.setdefault("ioptv", []).append(op["x"])
        return op

    def iopts(self, sc):
        r = self.r
        o = {}
        provs = [e["n"] for e in sc["res"] if e["kind"] == "provider"]
        if provs and r.random() < 0.3:
            o["provider"] = r.choice(provs)
        pars = [e["n"] for e in sc["res"] if e["kind"] in ("comp", "custom", "remote") and e.get("selfok", True)]
        if self.p["invs"]:
            pars = [e["n"] for e in sc["res"] if e["kind"] == "comp" and e.get("selfok", True)] or pars
        if pars and r.random() < 0.4:
            o["parent"] = r.choice(pars)
        if r.random() < 0.4:
            o["version"] = r.choice(("1.0.0", "2.0.0"))
        if r.random() < 0.3:
            o["plugin_download_url"] = "https://i/%d" % r.randrange(3)
        return o

    def idexpr(self, sc, name):
        """The ID of something that exists: often another resource's answer, perhaps still unknown."""
        cand = []
        for n, p in self.props_of(sc, "s"):
            o = (self.plans.get(n) or {}).get("out", {}).get(p)
            if o and o[0] in ("v", "unk") and o[1] and isinstance(o[1], str):
                cand.append((n, p))
        if cand and self.r.random() < 0.8:
            unk = [c for c in cand if self.plans[c[0]]["out"][c[1]][0] == "unk"]
            n, p = self.r.choice(unk if unk and self.r.random() < 0.6 else cand)
            if (n, p) in unk:
                self.unkid = name
            return ["prop", n, p]
        return ["from", ["lit", "ext2-" + name]]

    def ops(self, sc, n, in_comp=False):
        r = self.r
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            k = r.random()
            if self.ch("lets"):
                x = self.var()
                e = self.output(sc, 0)
                rr = [e["n"] for e in sc["res"] if e.get("selfok", True)]
                if rr and self.ch("resval"):
                    e = ["from", ["list", [["res", r.choice(rr)], e]]]
                out.append({"op": "let", "x": x, "e": e})
                sc["vars"].append((x, "o"))
            elif self.ch("invs") and sc["res"]:
                if self.ch("ioptv") and (not sc.get("ioptv") or r.random() < 0.2):
                    out.append(self.ioptvar(sc))
                out.append(self.invoke(sc))
            elif k < 0.62:
                out += self.resource(sc, in_comp)
            elif k < 0.72 and self.ch("invoke"):
                out.append(self.invoke(sc))
            elif k < 0.78 and self.ch("call"):
                out.append(self.call(sc))
            elif k < 0.84 and self.ch("log"):
                rr = [e for e in sc["res"] if e.get("selfok", True)]
                self.nlit += 1
                o = {"op": "log", "msg": "note %d%s" % (self.nlit, self.tag), "sev": r.choice(("info", "warn", "error", "debug"))}
                if rr and r.random() < 0.8:
                    o["r"] = r.choice(rr)["n"]
                if self.ch("stream"):
                    o["stream"] = r.randint(1, 9)
                if self.ch("stream") and r.random() < 0.5:
                    o["eph"] = 1
                out.append(o)
            elif k < 0.89 and self.ch("optv"):
                out.append(self.optvar(sc))
            elif k < 0.89 and self.ch("ioptv") and self.ch("invoke"):
                out.append(self.ioptvar(sc))
            elif k < 0.89 and self.ch("sharedv"):
                x = self.var()
                nsc = dict(sc, nocoro=True)
                e = self.value(nsc)
                if e[0] not in ("list", "dict"):
                    e = [r.choice(("list", "list")), [e, self.value(nsc)]]
                out.append({"op": "let", "x": x, "e": e})
                sc["vars"].append((x, "v"))
            elif k < 0.92 and self.ch("shape") and not sc.get("in_cb"):
                out += self.attrset(sc)
            elif k < 0.92:
                x = self.var()
                out.append({"op": "let", "x": x, "e": self.output(sc, 0)})
                sc["vars"].append((x, "o"))
            elif self.props_of(sc) and self.ch("apply"):
                # a callback for its effects
                a, p = r.choice(self.props_of(sc))
                x = self.var()
                out.append({"op": "let", "x": x, "e": self.applied(sc, 1, "any", self.site(), ["prop", a, p], sc.get("depth", 0) < 2)})
                sc["vars"].append((x, "o"))
            if self.fail_left and not sc.get("in_cb") and self.ch("raise"):
                self.fail_left -= 1
                out.append({"op": "raise", "msg": "program error", "run_error": r.random() < 0.3})
                if self.ch("misuse"):
                    out[-1] = {"op": "raise", "msg": "misused", "bad": r.choice(MISUSE)}
        return out

    def provtree(self, sc):
        """Providers handed down through nested components, some of them replaced on the way."""
        r = self.r
        out, provs, comps = [], {}, []
        for pk in r.sample(PK, 2):
            for _ in range(r.randint(1, 2)):
                n = self.name("prov")
                out.append({"op": "res", "kind": "provider", "n": n, "type": "pulumi:providers:" + pk, "props": {}, "opts": {}})
                self.plans[n] = {"out": {}}
                provs.setdefault(pk, []).append(n)
                sc["res"].append({"n": n, "kind": "provider", "pkg": pk, "outs": [], "sync": not sc.get("in_cb")})

        def node(depth, parent=None):
            kind = "comp" if depth == 0 or depth < 3 and r.random() < 0.5 else r.choice(("custom", "custom", "custom", "remote", "invoke"))
            pk = r.choice(sorted(provs) * 3 + [r.choice(PK)])
            o = {"parent": parent} if parent else {}
            if kind == "invoke":
                self.ninv += 1
                x = self.var()
                self.plans["invoke:%s:m:f%d" % (pk, self.ninv)] = {}
                own = parent or r.choice(comps)
                if r.random() < 0.2:
                    return {"op": "invoke", "x": x, "tok": "%s:m:f%d" % (pk, self.ninv), "args": {}, "parent": own, "provider": r.choice(provs[r.choice(sorted(provs))])}
                return {"op": "invoke", "x": x, "tok": "%s:m:f%d" % (pk, self.ninv), "args": {}, "parent": own}
            n = self.name({"comp": "k", "custom": "c", "remote": "m"}[kind])
            if kind == "comp" and self.ch("trans"):
                o["transformations"] = [self.transf(sc)]
            if r.random() < (0.75 if kind == "comp" else 0.25):
                ks = r.sample(sorted(provs), r.randint(1, len(provs)))
                o["providers"] = [r.choice(provs[k]) for k in ks]
                if r.random() < 0.3:
                    o["_pdict"] = 1
            if pk in provs and r.random() < 0.2:
                o["provider"] = r.choice(provs[pk])
            self.plans[n] = {"out": {}}
            op = {"op": "res", "kind": kind, "n": n, "type": "%s:m0:T%d" % (pk, r.randrange(3)), "props": {}, "opts": o}
            if kind == "comp":
                comps.append(n)
                op["children"] = [node(depth + 1) for _ in range(r.randint(1, 3))]
            return op

        out.append(node(0))
        for _ in range(r.randint(0, 2)):
            out.append(node(3, r.choice(comps)))
        if self.ch("call"):
            def leaves(op):
                return sum([leaves(c) for c in op.get("children") or []], [op["n"]] if op.get("kind") in ("custom", "remote") else [])
            for n in sum([leaves(op) for op in out], [])[:2]:
                self.ninv += 1
                tok = "pa:m:T/meth%d" % self.ninv
                self.plans["call:" + tok] = {"out": {}}
                out.append({"op": "call", "x": self.var(), "tok": tok, "args": {"__self__": ["res", n]}, "r": n})
        return out

    def loss(self, plan):
        if plan["code"] in ("unavailable", "deadline", "exhausted") and self.r.random() < 0.5:
            plan["lost"] = 1

    def crowd(self, xs):
        """Now and then, many plain values around the others."""
        r = self.r
        if r.random() < 0.06:
            for i in range(r.randint(6, 30)):
                xs.insert(r.randint(0, len(xs)), ["lit", "x%d" % i])
        return xs

    def attrset(self, sc):
        """A resource keeps something - itself, its owner, a value - in an attribute."""
        r = self.r
        tgt = [e for e in sc["res"] if e["kind"] in ("comp", "custom", "remote") and not e.get("style")]
        if not tgt:
            return []
        k = r.random()
        if k < 0.5:
            e = ["res", r.choice(sc["res"])["n"]]
            if k < 0.1:
                e = ["list", [e, ["lit", 1]]]
            elif k < 0.2:
                e = ["dict", {"of": e}]
            elif k < 0.3:
                e = ["from", e]
        elif k < 0.8:
            e = self.output(dict(sc, nocoro=True, nofail=True), 2)
        else:
            e = ["lit", r.choice(("at", 4, None, {"_p": 1, "q": 2}))]
        return [{"op": "setattr", "r": r.choice(tgt)["n"], "k": r.choice(("z0", "z1", "_z2")), "e": e}]

    def shape(self, sc, e):
        """An exported value of some other shape."""
        r = self.r
        nsc = dict(sc, nocoro=True)
        return r.choice((["tuple", [e, ["lit", 2]]], ["iset", r.sample(range(8), 3)], ["range", 3], ["obj", {"f": e, "_g": ["lit", 1], "h": ["iset", [5]]}],
                         ["dup", self.value(nsc)], ["dict", {"_priv": ["lit", 1], "pub": ["tuple", [["obj", {"u": e}]]]}],
                         ["cyc", r.choice(("dict", "list", "deep", "obj")), self.value(nsc)]))

    def invoke(self, sc):
        r = self.r
        self.ninv += 1
        x = self.var()
        tok = "%s:m:f%d" % (r.choice(PK), self.ninv)
        isc = dict(sc, noresval=r.random() < 0.7)
        op = {"op": "invoke", "x": x, "tok": tok, "args": {"a%d" % i: self.value(isc) for i in range(r.randint(0, 2))}}
        if r.random() < 0.7:
            op.update(self.iopts(sc))
        if sc.get("ioptv") and r.random() < 0.7:
            op["use"] = r.choice(sc["ioptv"])
            if r.random() < 0.5:
                op["mstyle"] = 1
        plan = {}
        if r.random() < 0.5:
            plan["ret"] = {"z": self.ref_wire(True) if self.ch("hyd") else r.choice(("ret", 5, {"q": [1, 2]}))}
        if self.fail_left and self.ch("err") and r.random() < 0.5:
            self.fail_left -= 1
            plan["err"] = "invoke refused"
            plan["code"] = r.choice(("unknown", "invalid", "unavailable"))
            self.loss(plan)
        elif self.fail_left and self.ch("failures"):
            self.fail_left -= 1
            plan["failures"] = r.choice((1, 1, 2, 3))
        if self.ch("catch"):
            op["catch"] = 1
        if self.ch("slow"):
            plan["slow"] = r.choice((0.5, 5.0, 60.0))
        self.plans["invoke:" + tok] = plan
        sc["vars"].append((x, "v"))
        return op

    def call(self, sc):
        r = self.r
        self.ninv += 1
        x = self.var()
        tok = "pa:m:T/meth%d" % self.ninv
        rr = [e["n"] for e in sc["res"] if e["kind"] in ("custom", "remote") and e.get("selfok", True)]
        args = {"a%d" % i: self.value(sc) for i in range(r.randint(0, 2))}
        if args and self.fail_left and self.ch("badval"):
            self.fail_left -= 1
            args["a0"] = ["badval", r.choice(("object", "set", "bytes"))]
        op = {"op": "call", "x": x, "tok": tok, "args": args}
        if rr and r.random() < 0.7:
            op["r"] = r.choice(rr)
            args["__self__"] = ["res", op["r"]]
        out = {}
        for i in range(r.randint(0, 3)):
            k = r.random()
            p = "r%d" % i
            if k < 0.4:
                out[p] = ["v", self.ans() if self.ch("hyd") else r.choice(("res", 4, ["l"], {"m": "n"}))]
            elif k < 0.6:
                out[p] = ["sec", "topsecret-%s" % p]
            elif k < 0.75:
                out[p] = ["unk", "late"]
            elif args:
                a = r.choice(sorted(args))
                if a != "__self__":
                    out[p] = ["echo", a]
        plan = {"out": out}
        if self.ch("slow"):
            plan["slow"] = r.choice((0.5, 5.0, 60.0))
        if self.ch("pdeps"):
            u = "urn:pulumi:stk::proj::z:z:Z::y%d" % r.randrange(3)
            self.extra.append(u)
            if out:
                plan["pdeps"] = {r.choice(sorted(out)): [u]}
        if self.fail_left and self.ch("err") and r.random() < 0.5:
            self.fail_left -= 1
            plan["err"] = "call refused"
            if r.random() < 0.4:
                plan["code"] = "unavailable"
                self.loss(plan)
        elif self.fail_left and self.ch("failures"):
            self.fail_left -= 1
            plan["failures"] = r.choice((1, 1, 2, 3))
        self.plans["call:" + tok] = plan
        sc["vars"].append((x, "o"))
        return op


def generate(seed, prof=None):
    """A workload without the circular waits listed as a known finding (see DESIGN.md)."""
    from .model import Model
    for k in range(200):
        wl = generate1(seed if k == 0 else "%s/%d" % (seed, k), prof)
        m = Model(wl).run()
        mixed, circ = m.wait_cycles()
        assert not m.invalid, m.invalid
        if not mixed and not m.nested_wait and not m.unspecified and m.refs_answerable(circ):
            if circ:
                wl["_selfref"] = 1
            return wl
    raise RuntimeError("no workload for seed %s" % seed)


def generate1(seed, prof=None):
    rng = random.Random("wl:%s" % seed)
    g = Gen(rng, prof)
    wl = {"world": "prog", "preview": g.ch("preview"), "host": "inline" if g.ch("inline") else "exec"}
    g.preview = wl["preview"]
    if g.ch("penv"):
        wl["proc_env"] = {"PULUMI_ENABLE_LEGACY_APPLY": rng.choice(("true", "true", "false"))} if g.preview and rng.random() < 0.6 else \
            {"PULUMI_DISABLE_RESOURCE_REFERENCES": rng.choice(("1", "TRUE", "true", "0"))}
        if wl["proc_env"].get("PULUMI_DISABLE_RESOURCE_REFERENCES", "0") != "0":
            g.p = dict(g.p, refs=0, hyd=0)
    sc = {"res": [], "vars": [], "optv": [], "ioptv": []}
    ops = []
    if g.config:
        wl["config"], wl["config_secret_keys"] = g.config, g.secret_keys
        if g.ch("cenv"):
            wl["config_env"] = {"PROJ_S": "env-s", "PROJ_N": "18", "OTHER_S": "topsecret-env"}
            wl["config_env"].pop(rng.choice(sorted(wl["config_env"])))
            if rng.random() < 0.5:
                wl["config"] = {k: v for k, v in g.config.items() if k != "proj:s"}
                wl["config_env"]["PROJ_S"] = "env-only"
    if rng.random() < 0.3:
        wl["org"] = "acme"
    if g.ch("strans"):
        ops += [{"op": "strans", "t": g.transf()} for _ in range(rng.randint(1, 2))]
    if g.ch("ptree"):
        ops += g.provtree(sc)
    while g.budget > 0 and len(ops) < 25:
        b = g.budget
        ops += g.ops(sc, 4)
        if g.budget == b:
            ops += g.resource(sc)
    for i in range(rng.randint(0, 4)):
        if g.ch("export"):
            e = g.value(sc)
            if g.ch("shape"):
                e = g.shape(sc, e)
            ops.append({"op": "export", "k": "x%d" % i, "e": e})
    shareable = [["var", v] for v, t in sc["vars"] if t == "o"] + [["res", e["n"]] for e in sc["res"] if e["kind"] == "custom"]
    if g.ch("share") and shareable:
        v = rng.choice(shareable)
        ops.append({"op": "export", "k": "sh1", "e": v})
        ops.append({"op": "export", "k": "sh2", "e": v if rng.random() < 0.5 else ["list", [v, ["lit", "t"]]]})
    wl["ops"] = ops
    wl["_plans"] = g.plans
    wl["_extra_urns"] = sorted(set(g.extra))
    feats = {}
    for f in ("secrets", "resourceReferences", "outputValues"):
        if g.ch("nofeat"):
            feats[f] = False
    if g.p["nofeat"] and rng.random() < 0.05:
        feats["_unimplemented"] = True
    if g.ch("feat_err"):
        feats["_err"] = rng.choice(("internal", "unavailable", "unknown"))
    wl["features"] = feats
    if g.fail_left and g.ch("oaerr") and rng.random() < 0.5:
        g.fail_left -= 1
        g.plans["outputs:proj-stk"] = {"err": "stack outputs refused", "code": rng.choice(("unknown", "unavailable"))}
        g.loss(g.plans["outputs:proj-stk"])
    if g.fail_left and g.ch("death"):
        if rng.random() < 0.5:
            wl["die_after"] = rng.randint(1, 12)
        else:
            wl["die_time"] = rng.choice((0.0, 0.01, 0.05, 0.3, 1.0, 3.0))
    wl["spread"] = rng.choice((None, None, None, [0.001], [0.0, 1.0, 10.0], [0.001, 0.0015, 0.002, 0.003, 0.0]))
    return wl

"""Generates programs of dynamic resources and the requests their provider process gets."""
import random

from . import wire

BASE = {"inline": 500, "progs": (1, 3), "n": (1, 5), "provs": (1, 4), "share": 250, "fresh": 400, "after": 250, "from": 300, "preview": 300, "sleep": 350,
        "raise": 150, "unknown": 250, "swap": 250, "partial": 300, "life": (1, 5), "many": 0, "gone": 200, "lives": 900, "misc": 200, "exotic": 400, "kept": 150, "mixed": 250, "bump": 250}


class G:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(BASE)
        self.p.update(prof or {})
        self.n = 0

    def ch(self, k):
        return self.r.random() * 1000 < self.p[k]

    def val(self, d=2, unk=False):
        r = self.r
        self.n += 1
        if unk and r.random() < 0.25:
            return wire.UNKNOWN
        k = r.randrange(8 if d else 5)
        if k < 2:
            return r.choice(("", "\u00e9\u2603", "a\nb", "0", "true", "snake_case")) if self.ch("exotic") else "v%d" % self.n
        if k == 2:
            return r.choice((0, 1, -3, 2.5, 1e20))
        if k == 3:
            return r.choice((True, False))
        if k == 4:
            return "w%d" % self.n
        if k < 6:
            return [self.val(d - 1, unk) for _ in range(r.randint(0, 3))]
        return {x: self.val(d - 1, unk) for x in r.sample(("a", "b", "sub_key", "camelKey", "id", "k.e-y"), r.randint(0, 3))}

    def bag(self, unk=False, lo=0):
        return {x: self.val(2, unk) for x in self.r.sample(("p0", "p1", "snake_p", "camelP", "name", "size"), self.r.randint(lo, 3))}

    def prov(self, j, inline):
        r = self.r
        shape = r.choice(("mod", "local", "local") if inline else ("mod", "local", "main", "main"))
        ms = ["check", "diff", "create", "read", "update", "delete"]
        if shape == "local" and self.ch("partial"):
            ms = sorted(r.sample(ms, r.randint(0, 5)), key=ms.index)
        do = {}
        for m in ms:
            s = {}
            if self.ch("sleep"):
                s["sleep"] = r.choice((0.01, 0.2, 1.0, 5.0))
            if self.ch("raise"):
                s["raise"] = "provider %d cannot %s" % (j, m)
            if m == "check":
                if r.random() < 0.4:
                    s["set"] = {"checked": self.val(1), "p0": self.val(1)}
                if self.ch("kept"):
                    s["kept"] = dict(self.bag(), o="checked by %d" % j)
                    s.pop("set", None)
                elif r.random() < 0.1:
                    s["kept"] = {}
                    s.pop("set", None)
                elif r.random() < 0.2:
                    s["plain"] = r.randint(1, 2)
                    s.pop("set", None)
                elif r.random() < 0.3:
                    s["failures"] = [["p%d" % i, "not good %d" % i] for i in range(r.randint(1, 2))]
            elif m == "diff":
                if r.random() < 0.7:
                    s["changes"] = r.random() < 0.6
                if r.random() < 0.4:
                    s["replaces"] = r.sample(["p0", "p1", "a.b"], r.randint(0, 2))
                if r.random() < 0.4:
                    s["stables"] = r.sample(["p0", "size"], r.randint(0, 2))
                if r.random() < 0.4:
                    s["delete_before_replace"] = r.random() < 0.6
            elif m != "delete":
                if r.random() < 0.8:
                    s["outs"] = dict(self.bag(), o="%s by %d" % (m, j))
                    if r.random() < 0.2:
                        s["outs"]["nothing"] = None
                    s["echo"] = r.random() < 0.5
                if self.ch("kept"):
                    s["kept"] = dict(self.bag(), o="%s by %d" % (m, j))
                    s.pop("outs", None)
                if m == "create":
                    s["new_id"] = "made-by-%d" % j
                if m == "read":
                    if self.ch("gone"):
                        s["gone"] = True
                        s.pop("outs", None)
                        s.pop("kept", None)
                    elif r.random() < 0.3:
                        s["new_id"] = "read-by-%d" % j
            do[m] = s
        if self.ch("mixed"):
            do["table"] = r.choice(([[1, "one"], ["a", 2], [2, None]], [[None, 1], ["x", 2]], [[[1, 2], "t"], [[1, 1], "u"]], [[True, 1], ["x", [3]]]))
        return {"id": "P%d" % j, "shape": shape, "methods": ms, "do": do}

    def life(self, k, refs, names):
        """What happens to one resource, over one or several deployments."""
        r = self.r
        ref = refs[k % len(refs)]
        q0 = {"prov": ref, "urn": "urn:pulumi:s::p::pulumi-python:dynamic:Resource::" + ref.split("/")[1], "rid": "id-%d" % k}
        steps = []
        for _ in range(r.randint(*self.p["life"])):
            m = r.choice(("check", "diff", "create", "read", "update", "delete"))
            unk = m in ("check", "diff") and self.ch("unknown")
            q = dict(q0, m=m, news=self.bag(unk))
            if m in ("check", "diff", "update"):
                q["olds"] = self.bag()
                if self.ch("swap"):
                    q["oldprov"] = r.choice(refs)
            if r.random() < 0.3:
                q["wait"] = r.choice((0.01, 0.3, 2.0))
            steps.append(q)
        if self.ch("misc"):
            steps.insert(r.randint(0, len(steps)), {"m": r.choice(("Configure", "CheckConfig", "DiffConfig", "GetPluginInfo", "Cancel"))})
        for i, q in enumerate(steps):
            q["id"] = "rq%d.%d" % (k, i)
        return steps


def generate(seed, prof=None):
    rng = random.Random("dyn:%s" % seed)
    g = G(rng, prof)
    inline = g.ch("inline")
    wl = {"world": "dyn", "host": "inline" if inline else "exec", "preview": g.ch("preview")}
    provs = [g.prov(j, inline) for j in range(rng.randint(*g.p["provs"]))]
    wl["provs"] = provs
    wl["_plans"] = {}
    wl["progs"] = []
    for i in range(rng.randint(*g.p["progs"]) if inline else 1):
        prog, shared, bump = [], {}, g.ch("bump")
        for k in range(rng.randint(*g.p["n"])):
            r = {"n": "d%d%s" % (i, "abcdefghij"[k]), "prov": rng.randrange(len(provs)), "props": g.bag()}
            if rng.random() < 0.3:
                r["cls"] = "Named"
            if g.ch("fresh"):
                r["fresh"] = 1
            if bump:
                r["bump"] = rng.randrange(3)
            top = [x["n"] for x in prog if not x.get("after")]
            if g.ch("share"):
                r["share"] = rng.choice("xy")
                r["props"] = shared.setdefault(r["share"], r["props"])
            elif top and g.ch("from"):
                r["from"] = {"src": rng.choice(top)}
            if top and g.ch("after"):
                r["after"] = rng.choice(top)
            elif top and rng.random() < 0.2:
                r["deps"] = [rng.choice(top)]
            if rng.random() < 0.15:
                r["protect"] = True
            if rng.random() < 0.1:
                wl["_plans"][r["n"]] = {"slow": rng.choice((1.0, 20.0))}
            prog.append(r)
        wl["progs"].append(prog)
    if g.ch("many"):
        wl["progs"][0] += [{"n": "m%d" % k, "prov": rng.randrange(len(provs)), "props": {}, "fresh": 1} for k in range(300)]
    refs = ["%d/%s" % (i, r["n"]) for i, p in enumerate(wl["progs"]) for r in p]
    rng.shuffle(refs)
    wl["lives"] = [g.life(k, refs, None) for k in range(rng.randint(1, 6))] if g.ch("lives") else []
    wl["spread"] = rng.choice((None, None, [0.001], [0.0, 1.0, 10.0], [0.001, 0.0015, 0.002, 0.003, 0.0]))
    return wl


def editable(wl, path):
    return path[0] in ("progs", "lives", "_plans", "provs", "spread") and not (path[0] == "provs" and (len(path) < 5 or path[2] != "do")) \
        and path[-1] not in ("n", "bump", "prov", "m", "id", "news", "olds", "rid", "urn", "props", "new_id", "src")


def legal(wl):
    refs = {}
    if not wl["progs"]:
        return False
    for i, p in enumerate(wl["progs"]):
        top = set()
        shared = {}
        for r in p:
            if r["prov"] >= len(wl["provs"]):
                return False
            for x in [r.get("after")] + list((r.get("from") or {}).values()) + list(r.get("deps") or []):
                if x is not None and x not in top:
                    return False
            if r.get("share") and (shared.setdefault(r["share"], r["props"]) != r["props"] or r.get("from")):
                return False
            if not r.get("after"):
                top.add(r["n"])
            refs["%d/%s" % (i, r["n"])] = r
    for x in wl["lives"]:
        for q in x:
            if q["m"] in ("Configure", "CheckConfig", "DiffConfig", "GetPluginInfo", "Cancel"):
                continue
            if q["prov"] not in refs or q.get("oldprov") and q["oldprov"] not in refs:
                return False
    for p in wl["provs"]:
        for m in ("create",):
            if m in p["methods"] and "new_id" not in p["do"][m]:
                return False
    return True

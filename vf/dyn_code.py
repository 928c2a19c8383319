"""The parts of a simulated user's dynamic providers that live in importable modules."""
import time

import pulumi.dynamic as dyn

W = None        # the world: where provider code reports what it was called with
HOLD = []       # providers made inside functions, with what they captured
DEFAULTS = {}   # provider id -> method -> a dict the provider's module keeps and answers with


def act(spec, method, *args):
    """What every method does: report, take its time, fail or answer as its description says."""
    s = spec["do"].get(method) or {}
    n = W.called(spec["id"], method, args, spec.get("bump"))
    if s.get("sleep"):
        W.sim.fault("slow_method")
        time.sleep(s["sleep"])
    W.returned(n)
    if s.get("raise"):
        W.sim.fault("raising_method")
        raise ValueError(s["raise"])
    return s


def result(spec, method, s, id_, olds, news):
    """Builds the answer from the description and the arguments."""
    if method == "check":
        if s.get("kept") is not None:
            return dyn.CheckResult(keep(spec, method, s["kept"]), [])
        if s.get("plain"):
            return dyn.CheckResult(news if s["plain"] == 1 else None, [])
        inputs = dict(news)
        inputs.update(s.get("set") or {})
        return dyn.CheckResult(inputs, [dyn.CheckFailure(p, r) for p, r in s.get("failures") or []])
    if method == "diff":
        kw = {k: s[k] for k in ("changes", "replaces", "stables", "delete_before_replace") if k in s}
        return dyn.DiffResult(**kw)
    outs = None
    if s.get("kept") is not None:
        outs = keep(spec, method, s["kept"])
    elif s.get("outs") is not None:
        outs = dict(news) if s.get("echo") else {}
        outs.update(s["outs"])
    if method == "create":
        return dyn.CreateResult(s["new_id"], outs)
    if method == "read":
        if s.get("gone"):
            return dyn.ReadResult()
        return dyn.ReadResult(s.get("new_id", id_), outs if outs is not None else {})
    if method == "update":
        return dyn.UpdateResult(outs)
    return None


def keep(spec, method, d):
    """The dict the provider's module answers with, the same one every time."""
    return DEFAULTS.setdefault(spec["id"], {}).setdefault(method, dict(d))


class ModProvider(dyn.ResourceProvider):
    """A provider class of an importable module."""

    def __init__(self, spec):
        super().__init__()
        self.spec = spec

    def check(self, _olds, news):
        s = act(self.spec, "check", _olds, news)
        return result(self.spec, "check", s, None, _olds, news)

    def diff(self, _id, _olds, _news):
        s = act(self.spec, "diff", _id, _olds, _news)
        return result(self.spec, "diff", s, _id, _olds, _news)

    def create(self, props):
        s = act(self.spec, "create", props)
        return result(self.spec, "create", s, None, None, props)

    def read(self, id_, props):
        s = act(self.spec, "read", id_, props)
        return result(self.spec, "read", s, id_, None, props)

    def update(self, _id, _olds, _news):
        s = act(self.spec, "update", _id, _olds, _news)
        return result(self.spec, "update", s, _id, _olds, _news)

    def delete(self, _id, _props):
        act(self.spec, "delete", _id, _props)


def local(spec, methods):
    """A provider class made inside a function: its methods carry what they captured."""
    kept = dict(spec)

    class Local(dyn.ResourceProvider):
        pass

    def check(self, _olds, news):
        from vf import dyn_code as D
        return D.result(kept, "check", D.act(kept, "check", _olds, news), None, _olds, news)

    def diff(self, _id, _olds, _news):
        from vf import dyn_code as D
        return D.result(kept, "diff", D.act(kept, "diff", _id, _olds, _news), _id, _olds, _news)

    def create(self, props):
        from vf import dyn_code as D
        return D.result(kept, "create", D.act(kept, "create", props), None, None, props)

    def read(self, id_, props):
        from vf import dyn_code as D
        return D.result(kept, "read", D.act(kept, "read", id_, props), id_, None, props)

    def update(self, _id, _olds, _news):
        from vf import dyn_code as D
        return D.result(kept, "update", D.act(kept, "update", _id, _olds, _news), _id, _olds, _news)

    def delete(self, _id, _props):
        from vf import dyn_code as D
        D.act(kept, "delete", _id, _props)

    for f in (check, diff, create, read, update, delete):
        if f.__name__ in methods:
            setattr(Local, f.__name__, f)
    obj = Local()
    HOLD.append((obj, kept))
    return obj


class Res(dyn.Resource):
    """Everything else is the base class."""

    def __init__(self, rt, r, provider, props, opts=None):
        self._vf_name = r["n"]
        super().__init__(provider, r["n"], props, opts)


class Named(dyn.Resource, module="mod", name="Thing"):
    def __init__(self, rt, r, provider, props, opts=None):
        self._vf_name = r["n"]
        super().__init__(provider, r["n"], props, opts)

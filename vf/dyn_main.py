"""The simulated user's program, as the language host runs it: these classes belong to __main__, so the provider process
gets them by value. (Modules are imported where they are used: a module the class refers to would be sent along whole.)"""
import pulumi.dynamic as dyn

LIMIT = {"calls": 0, "greeting": "hello"}


def describe(spec):
    return (spec["id"], LIMIT["greeting"])


class Base(dyn.ResourceProvider):
    factor = 3

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.state = {"b": [1, {"z": None, "a": (1, 2)}], "a": spec["id"]}

    def ask(self, method, *args):
        from vf import dyn_code as D
        if describe(self.spec) != (self.state["a"], "hello") or self.factor != 3 or self.state["b"] != [1, {"z": None, "a": (1, 2)}]:
            raise RuntimeError("the provider's state did not survive")
        self.state["b"].append(method)      # (its own: the next request is served by the provider as the program made it)
        return D.act(self.spec, method, *args)

    def tell(self, *args):
        from vf import dyn_code as D
        return D.result(self.spec, *args)


class Main(Base):
    def check(self, _olds, news):
        return self.tell("check", self.ask("check", _olds, news), None, _olds, news)

    def diff(self, _id, _olds, _news):
        return self.tell("diff", self.ask("diff", _id, _olds, _news), _id, _olds, _news)

    def create(self, props):
        return self.tell("create", self.ask("create", props), None, None, props)

    def read(self, id_, props):
        return self.tell("read", self.ask("read", id_, props), id_, None, props)

    def update(self, _id, _olds, _news):
        return self.tell("update", self.ask("update", _id, _olds, _news), _id, _olds, _news)

    def delete(self, _id, _props):
        self.ask("delete", _id, _props)


def go():
    from vf import world_dyn
    world_dyn.program(world_dyn.CUR, Main)


go()

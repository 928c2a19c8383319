"""The packages and modules whose resources come back to life when a reference to them is deserialised."""
# module -> versions the program has registered (None: it states no version)
MODULES = {"ph:m0": ["1.0.0", "1.10.0", "1.2.3", "2.1.0"], "ph:m1": [None], "ph:m2": ["0.3.0"]}
PACKAGES = {"ph": ["2.0.0", "1.4.0"], "pi": [None]}
PROPS = {"T": ["o0", "o1"], "K": ["o0"], "P": ["o0"]}   # custom resource, remote component, provider


def _v(s):
    return tuple(int(x) for x in s.split("."))


def pick(typ, version):
    """(kind, version) of what a reference to this type becomes, or None if it stays a reference."""
    p = typ.split(":")
    if p[0] == "pulumi" and p[1] == "providers":
        have, kind = PACKAGES.get(p[2]), "P"
    else:
        have, kind = MODULES.get(":".join(p[:2])), p[2][:1]
    if have is None:
        return None
    if have == [None]:
        return kind, None
    ok = [v for v in have if not version or (_v(v)[0] == _v(version)[0] and _v(v)[1] >= _v(version)[1] and _v(v)[2] >= _v(version)[2])]
    return (kind, max(ok, key=_v)) if ok else None


def typ_of(urn):
    return urn.split("::")[2].split("$")[-1]


def is_ref(urn):
    return pick(typ_of(urn), "") is not None


def install():
    import pulumi
    from pulumi.runtime import rpc
    from semver import VersionInfo as Version

    def make(ver, name, typ, urn):
        kind = "P" if typ.startswith("pulumi:providers:") else typ.split(":")[2][:1]
        props = {k: None for k in PROPS[kind]}
        opts = pulumi.ResourceOptions(urn=urn)

        class It({"T": pulumi.CustomResource, "K": pulumi.ComponentResource, "P": pulumi.ProviderResource}[kind]):
            def __init__(self):
                self._vf_style = "ref"
                self._vf_name = "%s@%s:%s" % (name, ver, typ)
                if kind == "T":
                    super().__init__(typ, name, props, opts)
                elif kind == "K":
                    super().__init__(typ, name, props, opts, True)
                else:
                    super().__init__(typ.split(":")[2], name, props, opts)
        return It()

    class Mod(rpc.ResourceModule):
        def __init__(self, v):
            self.v = v

        def version(self):
            return Version.parse(self.v) if self.v else None

        def construct(self, name, typ, urn):
            return make(self.v, name, typ, urn)

    class Pack(rpc.ResourcePackage):
        def __init__(self, v):
            self.v = v

        def version(self):
            return Version.parse(self.v) if self.v else None

        def construct_provider(self, name, typ, urn):
            return make(self.v, name, typ, urn)

    for k, vs in MODULES.items():
        for v in vs:
            pulumi.runtime.register_resource_module(k.split(":")[0], k.split(":")[1], Mod(v))
    for k, vs in PACKAGES.items():
        for v in vs:
            pulumi.runtime.register_resource_package(k, Pack(v))

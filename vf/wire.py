"""Wire constants and protobuf <-> plain-Python conversion (independent of the SDK's own)."""
from google.protobuf import struct_pb2

SIG = "4dabf18193072939515e22adb298388d"
ASSET = "c44067f5952c0a294b673a41bacd8c17"
ARCHIVE = "0def7320c3a5731c473e5ecbe6d01bc7"
SECRET = "1b47061264138c4ac30d75fd1eb44270"
RESREF = "5cf8f73096256a8f31e491e813e4eb8e"
OUTVAL = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"


def norm(v):
    """Numbers as the wire sees them; key order dropped."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        f = float(v)
        return int(f) if f.is_integer() else f
    if isinstance(v, dict):
        return {k: norm(v[k]) for k in sorted(v)}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def from_value(v):
    k = v.WhichOneof("kind")
    if k == "null_value" or k is None:
        return None
    if k == "struct_value":
        return from_struct(v.struct_value)
    if k == "list_value":
        return [from_value(x) for x in v.list_value.values]
    if k == "number_value":
        return norm(v.number_value)
    return getattr(v, k)


def from_struct(s):
    return {k: from_value(s.fields[k]) for k in sorted(s.fields)}


def to_struct(d):
    s = struct_pb2.Struct()
    for k, v in d.items():
        set_value(s.fields[k], v)
    return s


def set_value(t, v):
    if v is None:
        t.null_value = 0
    elif isinstance(v, bool):
        t.bool_value = v
    elif isinstance(v, (int, float)):
        t.number_value = v
    elif isinstance(v, str):
        t.string_value = v
    elif isinstance(v, dict):
        t.struct_value.SetInParent()
        for k, x in v.items():
            set_value(t.struct_value.fields[k], x)
    elif isinstance(v, (list, tuple)):
        t.list_value.SetInParent()
        for x in v:
            set_value(t.list_value.values.add(), x)
    else:
        raise TypeError(type(v))


def secret(v):
    return {SIG: SECRET, "value": v}


def is_secret(v):
    return isinstance(v, dict) and v.get(SIG) == SECRET


def contains_unknown(v):
    if v == UNKNOWN:
        return True
    if isinstance(v, dict):
        return any(contains_unknown(x) for x in v.values())
    if isinstance(v, list):
        return any(contains_unknown(x) for x in v)
    return False


def canon(v):
    """A canonical string for JSON-like values."""
    v = norm(v)
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (k, canon(v[k])) for k in sorted(v)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, str):
        return v
    return repr(v)


def nonull(w):
    """Without the properties that are null."""
    if isinstance(w, dict):
        return {k: nonull(x) for k, x in w.items() if x is not None}
    if isinstance(w, list):
        return [nonull(x) for x in w]
    return w

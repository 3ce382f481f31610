"""Independent encoder / decoder of Pulumi property values (the oracle never uses the SDK's own codec)."""
from dataclasses import dataclass, field
from typing import Any, Optional, Tuple

from google.protobuf import struct_pb2

SIG = "4dabf18193072939515e22adb298388d"
SIG_ASSET = "c44067f5952c0a294b673a41bacd8c17"
SIG_ARCHIVE = "0def7320c3a5731c473e5ecbe6d01bc7"
SIG_SECRET = "1b47061264138c4ac30d75fd1eb44270"
SIG_RES = "5cf8f73096256a8f31e491e813e4eb8e"
SIG_OUT = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
UNKNOWN_STR = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"


class _Unk:
    def __repr__(self):
        return "<unknown>"

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return "UNK"


UNK = _Unk()


@dataclass(frozen=True)
class Secret:
    v: Any


@dataclass(frozen=True)
class AssetT:
    kind: str  # path | text | uri
    v: Any


@dataclass(frozen=True)
class ArchiveT:
    kind: str  # path | uri | assets
    v: Any


@dataclass(frozen=True)
class ResRef:
    urn: str
    id: Any = "<none>"  # "<none>" = no id field on the wire
    version: str = ""


@dataclass(frozen=True)
class OutVal:
    known: bool
    v: Any
    secret: bool
    deps: Tuple[str, ...] = ()


class BadWire(Exception):
    pass


# ---- protobuf <-> plain python -------------------------------------------------------------
def pb_plain(v):
    if isinstance(v, struct_pb2.Struct):
        return {k: pb_plain(x) for k, x in v.fields.items()}
    if isinstance(v, struct_pb2.ListValue):
        return [pb_plain(x) for x in v.values]
    if isinstance(v, struct_pb2.Value):
        k = v.WhichOneof("kind")
        if k is None or k == "null_value":
            return None
        if k == "struct_value":
            return pb_plain(v.struct_value)
        if k == "list_value":
            return pb_plain(v.list_value)
        return getattr(v, k)
    return v


def to_value(p) -> struct_pb2.Value:
    v = struct_pb2.Value()
    if p is None:
        v.null_value = 0
    elif isinstance(p, bool):
        v.bool_value = p
    elif isinstance(p, (int, float)):
        v.number_value = float(p)
    elif isinstance(p, str):
        v.string_value = p
    elif isinstance(p, dict):
        v.struct_value.SetInParent()
        for k, x in p.items():
            v.struct_value.fields[k].CopyFrom(to_value(x))
    elif isinstance(p, (list, tuple)):
        v.list_value.SetInParent()
        for x in p:
            v.list_value.values.add().CopyFrom(to_value(x))
    else:
        raise TypeError(f"cannot put {p!r} on the wire")
    return v


def plain_struct(p) -> struct_pb2.Struct:
    s = struct_pb2.Struct()
    for k, x in p.items():
        s.fields[k].CopyFrom(to_value(x))
    return s


# ---- terms <-> plain ------------------------------------------------------------------------
def enc(t):
    """term -> plain wire form"""
    if t is UNK:
        return UNKNOWN_STR
    if isinstance(t, Secret):
        return {SIG: SIG_SECRET, "value": enc(t.v)}
    if isinstance(t, AssetT):
        return {SIG: SIG_ASSET, t.kind: enc(t.v)}
    if isinstance(t, ArchiveT):
        return {SIG: SIG_ARCHIVE, t.kind: enc(t.v)}
    if isinstance(t, ResRef):
        d = {SIG: SIG_RES, "urn": t.urn}
        if t.id != "<none>":
            d["id"] = enc(t.id)
        if t.version:
            d["packageVersion"] = t.version
        return d
    if isinstance(t, OutVal):
        d = {SIG: SIG_OUT}
        if t.known:
            d["value"] = enc(t.v)
        if t.secret:
            d["secret"] = True
        if t.deps:
            d["dependencies"] = list(t.deps)
        return d
    if isinstance(t, dict):
        return {k: enc(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return [enc(v) for v in t]
    return t


def struct(t) -> struct_pb2.Struct:
    return plain_struct(enc(t))


def dec(p):
    """plain wire form (or protobuf) -> term"""
    if isinstance(p, (struct_pb2.Struct, struct_pb2.Value, struct_pb2.ListValue)):
        p = pb_plain(p)
    if isinstance(p, str):
        return UNK if p == UNKNOWN_STR else p
    if isinstance(p, dict):
        if SIG in p:
            s = p[SIG]
            rest = {k: v for k, v in p.items() if k != SIG}
            if s == SIG_SECRET:
                if set(rest) != {"value"}:
                    raise BadWire(f"secret with fields {sorted(rest)}")
                return Secret(dec(rest["value"]))
            if s in (SIG_ASSET, SIG_ARCHIVE):
                if len(rest) != 1:
                    raise BadWire(f"asset/archive with fields {sorted(rest)}")
                k = next(iter(rest))
                return (AssetT if s == SIG_ASSET else ArchiveT)(k, dec(rest[k]))
            if s == SIG_RES:
                bad = set(rest) - {"urn", "id", "packageVersion"}
                if bad or "urn" not in rest:
                    raise BadWire(f"resource reference with fields {sorted(rest)}")
                return ResRef(dec(rest["urn"]), dec(rest["id"]) if "id" in rest else "<none>", rest.get("packageVersion", ""))
            if s == SIG_OUT:
                bad = set(rest) - {"value", "secret", "dependencies"}
                if bad:
                    raise BadWire(f"output value with fields {sorted(rest)}")
                return OutVal("value" in rest, dec(rest["value"]) if "value" in rest else None,
                              rest.get("secret") is True, tuple(rest.get("dependencies", ())))
            raise BadWire(f"unknown signature {s}")
        return {k: dec(v) for k, v in p.items()}
    if isinstance(p, list):
        return [dec(v) for v in p]
    return p


def eq(a, b):
    """structural equality with strict bool/number distinction"""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return float(a) == float(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return False
    if isinstance(a, Secret):
        return eq(a.v, b.v)
    if isinstance(a, (AssetT, ArchiveT)):
        return a.kind == b.kind and eq(a.v, b.v)
    if isinstance(a, ResRef):
        return a.urn == b.urn and eq(a.id, b.id) and a.version == b.version
    if isinstance(a, OutVal):
        return a.known == b.known and (not a.known or eq(a.v, b.v)) and a.secret == b.secret and sorted(a.deps) == sorted(b.deps)
    return a == b


def walk(t):
    yield t
    if isinstance(t, Secret):
        yield from walk(t.v)
    elif isinstance(t, (AssetT, ArchiveT)):
        yield from walk(t.v)
    elif isinstance(t, OutVal):
        if t.known:
            yield from walk(t.v)
    elif isinstance(t, dict):
        for v in t.values():
            yield from walk(v)
    elif isinstance(t, (list, tuple)):
        for v in t:
            yield from walk(v)

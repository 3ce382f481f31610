"""Seeded generator of property values (terms of pv.wire)."""
from . import wire
from .wire import UNK, Secret

WORDS = ["", "a", "bc", "x y", "ünïcode ☃", "null", "0", "\n\t", "__x", "a.b[0]", "{}", "urn:x", "🎉", "[secret]", "true"]
KEYS = ["a", "b", "c", "fooBar", "foo_bar", "Key", "k1", "items", "values", "keys", "get", "self", "x-y", "é", "args", "id2",
        "copy", "value", "val", "kwargs", "_x", "a__b", "_"]


def scalar(rng, none=True):
    k = rng.randrange(9 if none else 8)
    if k == 0:
        return rng.random() < 0.5
    if k == 1:
        return rng.choice([0, 1, -1, 7, 2 ** 31, 2 ** 53, -(2 ** 53), 255])
    if k == 2:
        return rng.choice([0.5, -1.25, 1e300, 1e-9, 3.0])
    if k in (3, 4, 5):
        return rng.choice(WORDS)
    if k in (6, 7):
        return "s%d" % rng.randrange(10 ** 6)
    return None


def value(rng, depth=2, none=True, unk=0.0, secret=0.0, keys=KEYS):
    """A random term; `none` = None may occur as a leaf."""
    if unk and rng.random() < unk:
        return UNK
    if secret and rng.random() < secret:
        v = value(rng, depth, False, unk, secret / 2, keys)
        return v if isinstance(v, Secret) else Secret(v)
    if depth <= 0 or rng.random() < 0.4:
        return scalar(rng, none)
    n = rng.choice([0, 1, 1, 2, 3])
    if rng.random() < 0.03:
        return [value(rng, 0, none, unk, secret / 4, keys) for _ in range(rng.choice([9, 12, 20]))]
    if rng.random() < 0.5:
        return [value(rng, depth - 1, none, unk, secret, keys) for _ in range(n)]
    return {k: value(rng, depth - 1, none, unk, secret, keys) for k in rng.sample(keys, n)}


def strip_none(t):
    """What a receiver sees of an engine value: fields of objects that are null don't exist."""
    if isinstance(t, dict):
        return {k: strip_none(v) for k, v in t.items() if v is not None}
    if isinstance(t, list):
        return [strip_none(v) for v in t]
    if isinstance(t, Secret):
        return Secret(strip_none(t.v))
    return t


def unsecret(t):
    """Removes secret marks, keeping the content."""
    if isinstance(t, Secret):
        return unsecret(t.v)
    if isinstance(t, dict):
        return {k: unsecret(v) for k, v in t.items()}
    if isinstance(t, list):
        return [unsecret(v) for v in t]
    return t


def has(t, kind):
    return any((x is UNK) if kind is UNK else isinstance(x, kind) for x in wire.walk(t))


def to_py(t):
    """A term without marks, as the Python value a program sees (unknowns become the SDK's Unknown)."""
    import pulumi

    if t is UNK:
        return pulumi.output.UNKNOWN
    if isinstance(t, Secret):
        return pulumi.Output.secret(to_py(t.v))
    if isinstance(t, dict):
        return {k: to_py(v) for k, v in t.items()}
    if isinstance(t, list):
        return [to_py(v) for v in t]
    return t


def from_py(v):
    """The Python value a program sees -> a term."""
    import pulumi

    if isinstance(v, pulumi.output.Unknown):
        return UNK
    if isinstance(v, dict):
        return {k: from_py(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [from_py(x) for x in v]
    return v


def shape(t):
    """A coarse signature of a term, to tell distinct cases apart."""
    if t is UNK:
        return "U"
    if isinstance(t, Secret):
        return "S(" + shape(t.v) + ")"
    if isinstance(t, dict):
        return "{" + ",".join(shape(v) for v in t.values()) + "}"
    if isinstance(t, (list, tuple)):
        return "[" + ",".join(shape(v) for v in t) + "]"
    return type(t).__name__[0]
